#include <cctype>

#include "sv.hh"

namespace sv {

static const std::set<std::string> &keywords() {
    static const std::set<std::string> k = {
        "accept_on", "alias", "always", "always_comb", "always_ff", "always_latch", "and", "assert",
        "assign", "assume", "automatic", "before", "begin", "bind", "bins", "binsof", "bit",
        "break", "buf", "bufif0", "bufif1", "byte", "case", "casex", "casez", "cell", "chandle",
        "checker", "class", "clocking", "cmos", "config", "const", "constraint", "context",
        "continue", "cover", "covergroup", "coverpoint", "cross", "deassign", "default",
        "defparam", "design", "disable", "dist", "do", "edge", "else", "end", "endcase",
        "endchecker", "endclass", "endclocking", "endconfig", "endfunction", "endgenerate",
        "endgroup", "endinterface", "endmodule", "endpackage", "endprimitive", "endprogram",
        "endproperty", "endspecify", "endsequence", "endtable", "endtask", "enum", "event",
        "eventually", "expect", "export", "extends", "extern", "final", "first_match", "for",
        "force", "foreach", "forever", "fork", "forkjoin", "function", "generate", "genvar",
        "global", "highz0", "highz1", "if", "iff", "ifnone", "ignore_bins", "illegal_bins",
        "implements", "implies", "import", "incdir", "include", "initial", "inout", "input",
        "inside", "instance", "int", "integer", "interconnect", "interface", "intersect", "join",
        "join_any", "join_none", "large", "let", "liblist", "library", "local", "localparam",
        "logic", "longint", "macromodule", "matches", "medium", "modport", "module", "nand",
        "negedge", "nettype", "new", "nexttime", "nmos", "nor", "noshowcancelled", "not",
        "notif0", "notif1", "null", "or", "output", "package", "packed", "parameter", "pmos",
        "posedge", "primitive", "priority", "program", "property", "protected", "pull0", "pull1",
        "pulldown", "pullup", "pulsestyle_ondetect", "pulsestyle_onevent", "pure", "rand",
        "randc", "randcase", "randsequence", "rcmos", "real", "realtime", "ref", "reg",
        "reject_on", "release", "repeat", "restrict", "return", "rnmos", "rpmos", "rtran",
        "rtranif0", "rtranif1", "s_always", "s_eventually", "s_nexttime", "s_until",
        "s_until_with", "scalared", "sequence", "shortint", "shortreal", "showcancelled",
        "signed", "small", "soft", "solve", "specify", "specparam", "static", "string", "strong",
        "strong0", "strong1", "struct", "super", "supply0", "supply1", "sync_accept_on",
        "sync_reject_on", "table", "tagged", "task", "this", "throughout", "time",
        "timeprecision", "timeunit", "tran", "tranif0", "tranif1", "tri", "tri0", "tri1",
        "triand", "trior", "trireg", "type", "typedef", "union", "unique", "unique0", "unsigned",
        "until", "until_with", "untyped", "use", "uwire", "var", "vectored", "virtual", "void",
        "wait", "wait_order", "wand", "weak", "weak0", "weak1", "while", "wildcard", "wire",
        "with", "within", "wor", "xnor", "xor"};
    return k;
}
bool is_keyword(const std::string &s) { return keywords().count(s) > 0; }

std::vector<Tok> lex(const std::string &t) {
    std::vector<Tok> r;
    size_t i = 0, n = t.size();
    int line = 1;
    auto err = [&](const std::string &m) -> void {
        throw Error("lex", m + " at line " + std::to_string(line));
    };
    while (i < n) {
        char c = t[i];
        if (c == '\n') {
            line++;
            i++;
            continue;
        }
        if (isspace((unsigned char)c)) {
            i++;
            continue;
        }
        if (c == '/' && i + 1 < n && t[i + 1] == '/') {
            while (i < n && t[i] != '\n') i++;
            continue;
        }
        if (c == '/' && i + 1 < n && t[i + 1] == '*') {
            i += 2;
            while (i + 1 < n && !(t[i] == '*' && t[i + 1] == '/')) {
                if (t[i] == '\n') line++;
                i++;
            }
            if (i + 1 >= n) err("unterminated comment");
            i += 2;
            continue;
        }
        if (c == '`') {  // directive: skip the line
            while (i < n && t[i] != '\n') i++;
            continue;
        }
        if (c == '(' && i + 1 < n && t[i + 1] == '*' && i + 2 < n && t[i + 2] != ')') {
            i += 2;
            while (i + 1 < n && !(t[i] == '*' && t[i + 1] == ')')) {
                if (t[i] == '\n') line++;
                i++;
            }
            if (i + 1 >= n) err("unterminated attribute");
            i += 2;
            continue;
        }
        Tok k;
        k.line = line;
        if (isalpha((unsigned char)c) || c == '_' || c == '$') {
            size_t j = i + 1;
            while (j < n && (isalnum((unsigned char)t[j]) || t[j] == '_' || t[j] == '$')) j++;
            k.k = Tok::Id;
            k.s = t.substr(i, j - i);
            i = j;
            r.push_back(k);
            continue;
        }
        if (isdigit((unsigned char)c) ||
            (c == '\'' && i + 1 < n && (t[i + 1] == '0' || t[i + 1] == '1') &&
             (i + 2 >= n || !isalnum((unsigned char)t[i + 2])))) {
            k.k = Tok::Num;
            if (c == '\'') {
                k.s = t.substr(i, 2);
                k.sized = false;
                k.sgn = false;
                k.width = 1;
                k.val = BV(1, t[i + 1] == '1');
                i += 2;
                r.push_back(k);
                continue;
            }
            size_t j = i;
            uint64_t v = 0;
            while (j < n && (isdigit((unsigned char)t[j]) || t[j] == '_')) {
                if (t[j] != '_') v = v * 10 + (t[j] - '0');
                j++;
            }
            size_t q = j + 1;
            bool sg = false;
            if (j < n && t[j] == '\'' && q < n && (t[q] == 's' || t[q] == 'S')) {
                sg = true;
                q++;
            }
            if (j < n && t[j] == '\'' && q < n && std::string("bodhBODH").find(t[q]) != std::string::npos) {
                int base = 16;
                switch (tolower(t[q])) {
                    case 'b':
                        base = 2;
                        break;
                    case 'o':
                        base = 8;
                        break;
                    case 'd':
                        base = 10;
                        break;
                }
                q++;
                if (v == 0 || v > BV::MAXW) err("bad literal width");
                BV val((uint32_t)v, 0);
                size_t s0 = q;
                bool over = false;
                while (q < n && (isalnum((unsigned char)t[q]) || t[q] == '_')) {
                    char ch = (char)tolower(t[q]);
                    if (ch != '_') {
                        int dgt = isdigit((unsigned char)ch) ? ch - '0' : ch - 'a' + 10;
                        if (dgt < 0 || dgt >= base) err(std::string("bad digit in literal: ") + ch);
                        BV wide = val.resize((uint32_t)std::min<uint64_t>(v + 8, BV::MAXW), false);
                        wide = BV::add(BV::mul(wide, BV(wide.w, base)), BV(wide.w, dgt));
                        val = wide.resize((uint32_t)v, false);
                        if (wide != val.resize(wide.w, false)) over = true;
                    }
                    q++;
                }
                if (q == s0) err("literal without digits");
                k.s = t.substr(i, q - i);
                k.sized = true;
                k.sgn = sg;
                k.width = (uint32_t)v;
                k.val = val;
                if (over) k.s += "!overflow";
                i = q;
            } else {
                k.s = t.substr(i, j - i);
                k.sized = false;
                k.sgn = true;
                k.width = 32;
                k.val = BV(32, v);
                i = j;
                if (i < n && isalpha((unsigned char)t[i])) err("identifier starts with a digit");
            }
            r.push_back(k);
            continue;
        }
        if (c == '"') {
            size_t j = i + 1;
            k.k = Tok::Str;
            while (j < n && t[j] != '"') {
                if (t[j] == '\\') {
                    k.s += t[j++];
                }
                if (j < n) {
                    if (t[j] == '\n') err("newline in string");
                    k.s += t[j++];
                }
            }
            if (j >= n) err("unterminated string");
            i = j + 1;
            r.push_back(k);
            continue;
        }
        static const char *ops[] = {"<<<=", ">>>=", "<<<", ">>>", "===", "!==", "|->", "|=>", "<<=",
                                    ">>=", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "**",
                                    "++", "--", "+=", "-=", "*=", "/=", "::", "##", "~&", "~|", "~^",
                                    "->"};
        bool m = false;
        for (auto *o : ops) {
            size_t l = strlen(o);
            if (t.compare(i, l, o) == 0) {
                k.k = Tok::Op;
                k.s = o;
                i += l;
                m = true;
                break;
            }
        }
        if (!m) {
            if (std::string("+-*/%&|^~!<>=?:;,.()[]{}#@'").find(c) == std::string::npos)
                err(std::string("unexpected character '") + c + "'");
            k.k = Tok::Op;
            k.s = std::string(1, c);
            i++;
        }
        r.push_back(k);
    }
    Tok e;
    e.line = line;
    r.push_back(e);
    return r;
}

namespace {
struct Parser {
    std::vector<Tok> t;
    size_t p = 0;
    Unit &u;
    explicit Parser(Unit &unit) : u(unit) {}

    const Tok &cur(int o = 0) const { return t[std::min(p + o, t.size() - 1)]; }
    [[noreturn]] void err(const std::string &m) const {
        throw Error("parse", m + " at line " + std::to_string(cur().line) + " near '" + cur().s + "'");
    }
    bool isop(const std::string &s, int o = 0) const { return cur(o).k == Tok::Op && cur(o).s == s; }
    bool iskw(const std::string &s, int o = 0) const { return cur(o).k == Tok::Id && cur(o).s == s; }
    bool isname(int o = 0) const { return cur(o).k == Tok::Id && !is_keyword(cur(o).s) && cur(o).s[0] != '$'; }
    bool accept(const std::string &s) {
        if ((cur().k == Tok::Op || cur().k == Tok::Id) && cur().s == s) {
            p++;
            return true;
        }
        return false;
    }
    void expect(const std::string &s) {
        if (!accept(s)) err("expected '" + s + "'");
    }
    std::string ident() {
        if (!isname()) err("expected identifier");
        return t[p++].s;
    }

    ExprP mk(Expr::K k, const std::string &op, std::vector<ExprP> a = {}) {
        auto e = std::make_shared<Expr>();
        e->k = k;
        e->op = op;
        e->a = std::move(a);
        e->line = cur().line;
        return e;
    }

    ExprP postfix(ExprP e) {
        for (;;) {
            if (isop("[")) {
                p++;
                auto a = expr();
                if (accept(":")) {
                    auto b = expr();
                    expect("]");
                    e = mk(Expr::Range, "", {e, a, b});
                } else {
                    expect("]");
                    e = mk(Expr::Index, "", {e, a});
                }
            } else if (isop(".") && cur(1).k == Tok::Id) {
                p++;
                std::string m = cur().s;
                p++;
                e = mk(Expr::Member, m, {e});
            } else
                return e;
        }
    }

    ExprP lvalue() {
        if (isop("{")) {
            p++;
            std::vector<ExprP> v;
            do v.push_back(lvalue());
            while (accept(","));
            expect("}");
            return mk(Expr::Concat, "", v);
        }
        if (!isname()) err("expected lvalue");
        auto e = mk(Expr::Id, t[p].s);
        p++;
        return postfix(e);
    }

    ExprP primary() {
        const Tok &k = cur();
        if (k.k == Tok::Num) {
            p++;
            if (isop("'") && isop("(", 1)) {
                p += 2;
                auto x = expr();
                expect(")");
                auto e = mk(Expr::CastSize, "", {x});
                e->val = k.val;
                return e;
            }
            auto e = mk(Expr::Num, k.s);
            e->val = k.val;
            e->sgn = k.sgn;
            e->sized = k.sized;
            return e;
        }
        if (k.k == Tok::Str) {
            p++;
            return mk(Expr::Str, k.s);
        }
        if (isop("(")) {
            p++;
            auto e = expr();
            expect(")");
            if (isop("[")) err("select applied to a parenthesised expression");
            if (isop("'") && isop("(", 1)) {  // (expr)'(x)
                p += 2;
                auto x = expr();
                expect(")");
                return mk(Expr::CastType, "(size)", {x, e});
            }
            return e;
        }
        if (isop("{")) {
            p++;
            auto f = expr();
            if (isop("{")) {
                p++;
                std::vector<ExprP> v;
                do v.push_back(expr());
                while (accept(","));
                expect("}");
                expect("}");
                auto c = mk(Expr::Concat, "", v);
                return mk(Expr::Repl, "", {f, c});
            }
            std::vector<ExprP> v{f};
            while (accept(",")) v.push_back(expr());
            expect("}");
            auto c = mk(Expr::Concat, "", v);
            if (isop("[")) err("select applied to a concatenation");
            return c;
        }
        if (k.k == Tok::Id) {
            if ((k.s == "signed" || k.s == "unsigned") && isop("'", 1) && isop("(", 2)) {
                std::string s = k.s;
                p += 3;
                auto x = expr();
                expect(")");
                if (isop("[")) err("select applied to a cast");
                return mk(Expr::CastSign, s, {x});
            }
            if (k.s[0] == '$') {
                std::string s = k.s;
                p++;
                auto e = mk(Expr::Call, s);
                if (accept("(")) {
                    if (!accept(")")) {
                        do e->a.push_back(expr());
                        while (accept(","));
                        expect(")");
                    }
                }
                return e;
            }
            if (is_keyword(k.s)) err("keyword used in expression");
            std::string s = k.s;
            p++;
            if (isop("::")) {
                p++;
                s = ident();
            }
            if (isop("(")) {
                p++;
                auto e = mk(Expr::Call, s);
                if (!accept(")")) {
                    do {
                        if (accept(".")) {
                            std::string an = ident();
                            expect("(");
                            auto v = expr();
                            expect(")");
                            e->a.push_back(mk(Expr::Scoped, an, {v}));
                        } else
                            e->a.push_back(expr());
                    } while (accept(","));
                    expect(")");
                }
                if (isop("[")) err("select applied to a call");
                return e;
            }
            if (isop("'") && isop("(", 1)) {
                p += 2;
                auto x = expr();
                expect(")");
                if (isop("[")) err("select applied to a cast");
                return mk(Expr::CastType, s, {x});
            }
            return postfix(mk(Expr::Id, s));
        }
        err("unexpected token in expression");
    }

    ExprP unary() {
        static const std::set<std::string> ops = {"~", "-", "+", "!", "&", "|", "^", "~&", "~|", "~^"};
        if (cur().k == Tok::Op && ops.count(cur().s)) {
            std::string o = cur().s;
            p++;
            auto x = unary();
            return mk(Expr::Unary, o, {x});
        }
        if (isop("++") || isop("--")) err("increment operator in expression");
        return primary();
    }

    static int prec(const std::string &o) {
        static const std::map<std::string, int> m = {
            {"||", 1}, {"&&", 2}, {"|", 3}, {"^", 4}, {"~^", 4}, {"&", 5}, {"==", 6}, {"!=", 6},
            {"===", 6}, {"!==", 6}, {"<", 7}, {"<=", 7}, {">", 7}, {">=", 7}, {"<<", 8}, {">>", 8},
            {"<<<", 8}, {">>>", 8}, {"+", 9}, {"-", 9}, {"*", 10}, {"/", 10}, {"%", 10}, {"**", 11}};
        auto it = m.find(o);
        return it == m.end() ? 0 : it->second;
    }
    ExprP binary(int min) {
        auto l = unary();
        for (;;) {
            if (cur().k != Tok::Op) return l;
            int pr = prec(cur().s);
            if (!pr || pr < min) return l;
            std::string o = cur().s;
            p++;
            auto r = binary(pr + 1);
            l = mk(Expr::Binary, o, {l, r});
        }
    }
    ExprP expr() {
        auto c = binary(1);
        if (accept("?")) {
            auto a = expr();
            expect(":");
            auto b = expr();
            return mk(Expr::Cond, "", {c, a, b});
        }
        return c;
    }

    // --- types and declarations
    bool builtin_type() const {
        static const std::set<std::string> b = {"logic", "reg", "wire", "bit", "int", "integer", "byte",
                                                "shortint", "longint", "string", "chandle"};
        return cur().k == Tok::Id && b.count(cur().s);
    }
    TypeRefP type() {
        auto r = std::make_shared<TypeRef>();
        if (builtin_type()) {
            r->base = t[p++].s;
        } else {
            r->base = ident();
            if (accept("::")) r->base = ident();
        }
        if (accept("signed")) {
            r->sgn = true;
            r->has_sign = true;
        } else if (accept("unsigned"))
            r->has_sign = true;
        while (isop("[")) {
            p++;
            auto a = expr();
            expect(":");
            auto b = expr();
            expect("]");
            r->packed.emplace_back(a, b);
        }
        return r;
    }
    void unpacked(Decl &d) {
        while (isop("[")) {
            p++;
            Dim m;
            m.hi = expr();
            if (accept(":")) m.lo = expr();
            expect("]");
            d.unpacked.push_back(m);
        }
    }
    Decl decl(const TypeRefP &ty) {
        Decl d;
        d.type = ty;
        d.line = cur().line;
        d.name = ident();
        unpacked(d);
        if (accept("=")) d.init = expr();
        return d;
    }
    Port port() {
        Port o;
        o.d.line = cur().line;
        if (iskw("input") || iskw("output") || iskw("inout")) {
            o.dir = t[p++].s;
            if (builtin_type() || (isname() && (isname(1) || isop("[", 1) || isop("::", 1)))) {
                o.d.type = type();
            } else {
                o.d.type = std::make_shared<TypeRef>();
                o.d.type->base = "logic";
            }
            o.d.name = ident();
            unpacked(o.d);
        } else {
            o.iface = ident();
            if (accept(".")) o.modport = ident();
            o.d.name = ident();
        }
        return o;
    }

    // --- statements
    StmtP block() {
        auto s = std::make_shared<Stmt>();
        s->k = Stmt::Block;
        s->line = cur().line;
        expect("begin");
        std::string lbl;
        if (accept(":")) lbl = ident();
        s->label = lbl;
        while (!iskw("end")) {
            if (cur().k == Tok::Eof) err("missing end");
            s->b.push_back(stmt());
        }
        p++;
        if (accept(":")) {
            if (ident() != lbl) err("end label mismatch");
        }
        return s;
    }
    StmtP stmt() {
        auto s = std::make_shared<Stmt>();
        s->line = cur().line;
        if (isop(";")) {
            p++;
            return s;
        }
        if (iskw("begin")) return block();
        if (iskw("unique") || iskw("priority") || iskw("unique0")) {
            s->op = t[p++].s;
            if (!iskw("case")) err("expected case");
        }
        if (accept("if")) {
            s->k = Stmt::If;
            expect("(");
            s->c = expr();
            expect(")");
            s->b.push_back(stmt());
            if (accept("else")) s->b.push_back(stmt());
            return s;
        }
        if (accept("case")) {
            s->k = Stmt::Case;
            expect("(");
            s->c = expr();
            expect(")");
            bool def = false;
            while (!iskw("endcase")) {
                if (cur().k == Tok::Eof) err("missing endcase");
                CaseItem it;
                if (accept("default")) {
                    accept(":");
                    if (def) err("two default items");
                    def = true;
                } else {
                    do it.v.push_back(expr());
                    while (accept(","));
                    expect(":");
                }
                it.body = stmt();
                s->items.push_back(it);
            }
            p++;
            if (s->items.empty()) err("case without items");
            return s;
        }
        if (accept("for")) {
            s->k = Stmt::For;
            expect("(");
            auto ty = type();
            s->d.type = ty;
            s->d.name = ident();
            expect("=");
            s->l = expr();
            expect(";");
            s->c = expr();
            expect(";");
            auto iter = ident();
            if (iter != s->d.name) err("loop step on another variable");
            if (isop("+=") || isop("-=") || isop("=")) {
                s->op = t[p++].s;
                s->r = expr();
            } else if (accept("++")) {
                s->op = "+=";
                s->r = num(1);
            } else if (accept("--")) {
                s->op = "-=";
                s->r = num(1);
            } else
                err("loop step");
            expect(")");
            s->b.push_back(stmt());
            return s;
        }
        if (accept("return")) {
            s->k = Stmt::Return;
            if (!isop(";")) s->r = expr();
            expect(";");
            return s;
        }
        if (accept("break")) {
            s->k = Stmt::Break;
            expect(";");
            return s;
        }
        if (iskw("assert") && isop("(", 1)) {
            p += 2;
            s->k = Stmt::Assert;
            s->c = expr();
            expect(")");
            if (accept("else")) {
                s->b.push_back(stmt());
            } else
                expect(";");
            return s;
        }
        if (isop("#")) {
            p++;
            s->k = Stmt::Delay;
            s->r = primary();
            if (!isop(";")) {
                s->b.push_back(stmt());
            } else
                p++;
            return s;
        }
        if (isop("@")) {
            p++;
            s->k = Stmt::Delay;
            expect("(");
            while (!isop(")")) {
                if (cur().k == Tok::Eof) err("event control");
                p++;
            }
            p++;
            if (!isop(";"))
                s->b.push_back(stmt());
            else
                p++;
            return s;
        }
        if (cur().k == Tok::Id && cur().s[0] == '$') {
            s->k = Stmt::Call;
            s->r = primary();
            expect(";");
            return s;
        }
        if (isname() && isop("(", 1)) {
            s->k = Stmt::Call;
            s->r = primary();
            expect(";");
            return s;
        }
        s->k = Stmt::Assign;
        s->l = lvalue();
        if (accept("<="))
            s->nb = true;
        else
            expect("=");
        if (isop("#")) {
            p++;
            primary();
            s->op = "delay";
        }
        s->r = expr();
        expect(";");
        return s;
    }
    ExprP num(int64_t v) {
        auto e = mk(Expr::Num, std::to_string(v));
        e->val = BV::sval(32, v);
        e->sgn = true;
        e->sized = false;
        return e;
    }

    std::pair<std::string, Typedef> typedef_() {
        Typedef d;
        std::string name;
        if (accept("enum")) {
            auto e = std::make_shared<EnumDef>();
            if (isop("{")) {
                e->base = std::make_shared<TypeRef>();
                e->base->base = "int";
            } else
                e->base = type();
            expect("{");
            do {
                auto n = ident();
                ExprP v;
                if (accept("=")) v = expr();
                e->vals.emplace_back(n, v);
            } while (accept(","));
            expect("}");
            name = ident();
            e->name = name;
            d.e = e;
        } else if (accept("struct")) {
            expect("packed");
            bool sg = accept("signed");
            (void)sg;
            auto s = std::make_shared<StructDef>();
            expect("{");
            while (!isop("}")) {
                auto ty = type();
                do s->fields.push_back(decl(ty));
                while (accept(","));
                expect(";");
            }
            p++;
            if (s->fields.empty()) err("empty struct");
            name = ident();
            s->name = name;
            d.s = s;
        } else {
            d.alias = type();
            name = ident();
        }
        expect(";");
        return {name, d};
    }

    Func func() {
        Func f;
        if (accept("task"))
            f.task = true;
        else {
            expect("function");
            accept("automatic");
            if (!accept("void")) {
                if (builtin_type() || isop("[") || (isname() && isname(1)) || (isname() && isop("[", 1)))
                    f.ret = isop("[") ? implicit() : type();
                else {
                    f.ret = std::make_shared<TypeRef>();
                    f.ret->base = "logic";
                }
            }
        }
        f.name = ident();
        if (accept("(")) {
            if (!accept(")")) {
                do f.ports.push_back(port());
                while (accept(","));
                expect(")");
            }
        }
        expect(";");
        f.body = std::make_shared<Stmt>();
        f.body->k = Stmt::Block;
        const char *endk = f.task ? "endtask" : "endfunction";
        while (!iskw(endk)) {
            if (cur().k == Tok::Eof) err("missing endfunction");
            if (builtin_type()) {
                auto ty = type();
                do f.locals.push_back(decl(ty));
                while (accept(","));
                expect(";");
            } else
                f.body->b.push_back(stmt());
        }
        p++;
        return f;
    }
    TypeRefP implicit() {
        auto r = std::make_shared<TypeRef>();
        r->base = "logic";
        while (isop("[")) {
            p++;
            auto a = expr();
            expect(":");
            auto b = expr();
            expect("]");
            r->packed.emplace_back(a, b);
        }
        return r;
    }

    void params(Module &m) {
        expect("(");
        if (accept(")")) return;
        do {
            Param q;
            accept("parameter");
            if (accept("type")) {
                q.is_type = true;
                q.name = ident();
                if (accept("=")) q.type = type();
            } else {
                if (builtin_type() || (isname() && isname(1))) q.type = type();
                q.name = ident();
                if (accept("=")) q.val = expr();
            }
            m.params.push_back(q);
        } while (accept(","));
        expect(")");
    }

    ItemP instance() {
        auto it = std::make_shared<Item>();
        it->k = Item::Instance;
        it->line = cur().line;
        it->inst.mod = ident();
        if (accept("#")) {
            expect("(");
            do {
                expect(".");
                auto n = ident();
                expect("(");
                if (builtin_type()) {
                    it->inst.type_params.emplace_back(n, type());
                } else
                    it->inst.params.emplace_back(n, expr());
                expect(")");
            } while (accept(","));
            expect(")");
        }
        it->inst.name = ident();
        expect("(");
        if (!accept(")")) {
            do {
                if (accept(".")) {
                    auto n = ident();
                    expect("(");
                    ExprP e;
                    if (!isop(")")) e = expr();
                    expect(")");
                    it->inst.conns.emplace_back(n, e);
                } else
                    it->inst.pos.push_back(expr());
            } while (accept(","));
            expect(")");
        }
        expect(";");
        return it;
    }

    ItemP item() {  // behavioural items and instances
        auto it = std::make_shared<Item>();
        it->line = cur().line;
        if (accept("assign")) {
            it->k = Item::Assign;
            it->l = lvalue();
            expect("=");
            it->r = expr();
            expect(";");
            return it;
        }
        if (accept("always_comb")) {
            it->k = Item::Comb;
            it->body = stmt();
            return it;
        }
        if (accept("always_latch")) {
            it->k = Item::Latch;
            it->body = stmt();
            return it;
        }
        if (accept("always_ff")) {
            it->k = Item::FF;
            expect("@");
            expect("(");
            do {
                bool pos = true;
                if (accept("negedge"))
                    pos = false;
                else
                    expect("posedge");
                it->events.emplace_back(pos, expr());
            } while (accept(",") || accept("or"));
            expect(")");
            it->body = stmt();
            return it;
        }
        if (accept("always")) {
            it->k = Item::Always;
            it->body = stmt();
            return it;
        }
        if (accept("initial")) {
            it->k = Item::Initial;
            it->body = stmt();
            return it;
        }
        if (accept("final")) {
            it->k = Item::Final;
            it->body = stmt();
            return it;
        }
        if ((iskw("assert") || iskw("assume") || iskw("cover")) && iskw("property", 1)) {
            it->k = Item::Assertion;
            it->text = cur().s;
            p += 2;
            expect("(");
            it->label = ident();
            expect(")");
            if (!accept(";")) {
                if (accept("else")) {
                }
                stmt();
            }
            return it;
        }
        if (accept("for")) {
            it->k = Item::GenFor;
            expect("(");
            expect("genvar");
            it->genvar = ident();
            expect("=");
            it->gstart = expr();
            expect(";");
            it->gcond = expr();
            expect(";");
            if (ident() != it->genvar) err("genvar step");
            if (isop("+=") || isop("-=") || isop("="))
                it->gop = t[p++].s;
            else
                err("genvar step");
            it->gstep = expr();
            expect(")");
            expect("begin");
            if (accept(":")) it->label = ident();
            while (!iskw("end")) {
                if (cur().k == Tok::Eof) err("missing end");
                it->items.push_back(item());
            }
            p++;
            if (accept(":")) ident();
            return it;
        }
        if (isname()) return instance();
        err("unexpected module item");
    }

    void module() {
        auto m = std::make_shared<Module>();
        m->line = cur().line;
        m->is_iface = cur().s == "interface";
        std::string endk = m->is_iface ? "endinterface" : "endmodule";
        p++;
        m->name = ident();
        while (accept("import")) {
            m->imports.push_back(ident());
            expect("::");
            expect("*");
            expect(";");
        }
        if (accept("#")) params(*m);
        if (accept("(")) {
            if (!accept(")")) {
                do m->ports.push_back(port());
                while (accept(","));
                expect(")");
            }
        }
        expect(";");
        while (!iskw(endk)) {
            if (cur().k == Tok::Eof) err("missing " + endk);
            if (accept("typedef")) {
                m->typedefs.push_back(typedef_());
            } else if (iskw("function") || iskw("task")) {
                m->funcs.push_back(func());
            } else if (accept("modport")) {
                do {
                    auto n = ident();
                    expect("(");
                    std::string dir;
                    std::vector<std::pair<std::string, std::string>> v;
                    if (!isop(")")) do {
                            if (iskw("input") || iskw("output") || iskw("inout")) dir = t[p++].s;
                            if (dir.empty()) err("modport direction");
                            v.emplace_back(dir, ident());
                        } while (accept(","));
                    expect(")");
                    if (m->modports.count(n)) err("modport declared twice");
                    m->modports[n] = v;
                } while (accept(","));
                expect(";");
            } else if (iskw("property")) {
                std::string txt;
                p++;
                txt = ident();
                expect(";");
                txt += " : ";
                while (!iskw("endproperty")) {
                    if (cur().k == Tok::Eof) err("missing endproperty");
                    txt += cur().s + " ";
                    p++;
                }
                p++;
                m->props.push_back(txt);
            } else if (iskw("localparam") || iskw("parameter")) {
                p++;
                Param q;
                q.local = true;
                if (builtin_type() || (isname() && isname(1))) q.type = type();
                q.name = ident();
                expect("=");
                q.val = expr();
                expect(";");
                m->params.push_back(q);
            } else if (accept("import")) {
                if (cur().k == Tok::Str) {
                    p--;
                    dpi();
                } else {
                    m->imports.push_back(ident());
                    expect("::");
                    expect("*");
                    expect(";");
                }
            } else if (builtin_type() ||
                       (isname() && (isop("[", 1) || (isname(1) && !isop("(", 2) && !isop("#", 1))))) {
                auto ty = type();
                do m->vars.push_back(decl(ty));
                while (accept(","));
                expect(";");
            } else
                m->items.push_back(item());
        }
        p++;
        accept(":") ? (void)ident() : (void)0;
        if (u.modules.count(m->name)) u.dups.push_back(m->name);
        u.modules[m->name] = m;
        u.order.push_back(m->name);
    }
    void dpi() {
        std::string txt;
        while (!isop(";")) {
            if (cur().k == Tok::Eof) err("import");
            txt += (cur().k == Tok::Str ? "\"" + cur().s + "\"" : cur().s) + " ";
            p++;
        }
        p++;
        u.dpi.push_back(txt);
    }
    void top() {
        while (cur().k != Tok::Eof) {
            if (iskw("module") || iskw("interface"))
                module();
            else if (accept("typedef")) {
                auto d = typedef_();
                for (auto &x : u.typedefs)
                    if (x.first == d.first) u.dups.push_back(d.first);
                u.typedefs.push_back(d);
            } else if (accept("package")) {
                u.packages.insert(ident());
                expect(";");
            } else if (accept("endpackage")) {
            } else if (iskw("import")) {
                if (cur(1).k == Tok::Str)
                    dpi();
                else {
                    p++;
                    auto n = ident();
                    expect("::");
                    expect("*");
                    expect(";");
                    if (!u.packages.count(n)) err("import of unknown package " + n);
                }
            } else if (isop(";")) {
                p++;
            } else
                err("unexpected top level item");
        }
    }
};
}  // namespace

void parse(const std::string &text, Unit &u) {
    Parser ps(u);
    ps.t = lex(text);
    for (auto &k : ps.t)
        if (k.k == Tok::Num && k.s.find("!overflow") != std::string::npos)
            throw Error("lex", "literal does not fit its width: " + k.s);
    ps.top();
}
}  // namespace sv
