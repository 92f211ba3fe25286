// P01 expressions, P02 processes, P03 default flow
#include "rdl.hh"
using namespace rdl;

static std::string head(const std::string &t, size_t n = 900) { return t.size() > n ? t.substr(0, n) + "..." : t; }

// ---- P01 ----------------------------------------------------------------------------------
static void p01(pbt::Case &c) {
    Cfg cfg;
    cfg.seq = false;
    cfg.comb = false;
    cfg.max_wire = 2;
    cfg.max_out = 2;
    cfg.depth = 2 + (int)c.src.draw(c.thorough ? 4 : 3);
    cfg.functions = true;
    Gen g(c, cfg);
    Design d = g.design();
    Built b = build(d);
    // widths and signs the library reports for what was built
    for (auto const &blk : d.top().blks)
        for (auto const &s : blk.stmts) {
            auto &x = bexpr(b, 0, s->r, nullptr);
            c.check(x.width() == s->r->w, "width", "width " + std::to_string(x.width()) + " of " + x.to_string() + ", built as " + std::to_string(s->r->w));
            c.check(x.is_signed() == s->r->s, "sign", "signedness of " + x.to_string());
        }
    auto src = plain_flow(b.top);
    std::string text = join(src);
    c.sample = head(text);
    std::function<int(const EP &)> nodes = [&](const EP &e) {
        int n = 1;
        for (auto const &k : e->a) n += nodes(k);
        for (auto const &k : e->sel) n += k.dyn ? nodes(k.dyn) : 1;
        return n;
    };
    for (auto const &blk : d.top().blks)
        for (auto const &s : blk.stmts)
            if (s->k == S::Assign) c.nontrivial |= nodes(s->r) >= 5;
    DriveOpt o;
    o.steps = 8;
    o.tag = "value";
    drive(c, d, text, o);
}
static pbt::Reg r01({"P01", "some expression has at least five operators, operands and indices", p01, 100000, 2000000, {}, {}});

// ---- P02 ----------------------------------------------------------------------------------
static void p02(pbt::Case &c) {
    Cfg cfg;
    cfg.latch = true;
    cfg.depth = 2;
    cfg.block_depth = 3;
    cfg.functions = c.src.flip();
    Gen g(c, cfg);
    Design d = g.design();
    BuildOpt bo;
    bo.explicit_types = c.src.flip();
    Built b = build(d, bo);
    auto src = plain_flow(b.top);
    std::string text = join(src);
    c.sample = head(text);
    c.nontrivial = text.find("always") != std::string::npos;
    drive(c, d, text);
}
static pbt::Reg r02({"P02", "the emitted module contains at least one procedural block", p02, 60000, 1000000, {}, {}});

// ---- P03 ----------------------------------------------------------------------------------
static void p03(pbt::Case &c) {
    Cfg cfg;
    cfg.latch = c.src.flip();
    cfg.hier = (int)c.src.draw(3);
    cfg.depth = 2;
    cfg.functions = c.src.chance(1, 3);
    cfg.max_wire = 4;
    cfg.chains = c.src.flip();
    cfg.bitcopy = c.src.flip();
    cfg.constwire = c.src.flip();
    cfg.out_chain = c.src.flip();
    cfg.pass_through = c.src.flip();
    cfg.ifchain = c.src.flip();
    cfg.many_inst = c.src.chance(1, 3);
    Gen g(c, cfg);
    Design d = g.design();
    BuildOpt bo;
    bo.explicit_types = c.src.flip();
    bo.clone = c.src.chance(1, 3);
    Built b = build(d, bo);
    Flow f;
    f.optimize_passthrough = !bo.clone;  // not offered for clones
    f.check_multiple_driver = false;  // policies on how registers are written, decided separately
    f.check_latch = false;
    std::map<std::string, std::string> src = default_flow(b.top, f);
    std::string text = join(src);
    c.sample = head(text);
    c.nontrivial = d.mods.size() > 1;
    drive(c, d, text);
}
static pbt::Reg r03({"P03", "the design has at least two modules", p03, 16000, 300000, {}, {}});
