// Stand-in for the parts of Spot 2.11 and BuDDy (bddx) that verifypn uses (neither is
// available offline). Formulae are plain hash-consed trees, BDDs are the textbook
// unique-table implementation, and the LTL->Buchi translation is the Couvreur tableau
// followed by degeneralisation, trimming and signature merging. Part of the trusted
// base of the LTL checks; validated against an independent lasso semantics by
// tools/test_standins.py.
#ifndef VP_STANDIN_SPOT_HH
#define VP_STANDIN_SPOT_HH
#include <algorithm>
#include <cassert>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

// ----------------------------------------------------------------- BDD ("buddy")
namespace vp_bdd {
    struct node { int var, lo, hi; };
    struct table {
        std::vector<node> nodes{{1 << 30, 0, 0}, {1 << 30, 1, 1}};
        std::map<std::tuple<int, int, int>, int> unique;
        std::map<std::tuple<int, int, int>, int> ite_cache;
        int mk(int var, int lo, int hi) {
            if (lo == hi) return lo;
            auto k = std::make_tuple(var, lo, hi);
            auto it = unique.find(k);
            if (it != unique.end()) return it->second;
            nodes.push_back({var, lo, hi});
            return unique[k] = (int) nodes.size() - 1;
        }
        int ite(int f, int g, int h) {
            if (f == 1) return g;
            if (f == 0) return h;
            if (g == h) return g;
            if (g == 1 && h == 0) return f;
            auto k = std::make_tuple(f, g, h);
            auto it = ite_cache.find(k);
            if (it != ite_cache.end()) return it->second;
            int v = std::min({nodes[f].var, nodes[g].var, nodes[h].var});
            auto lo = [&](int x) { return nodes[x].var == v ? nodes[x].lo : x; };
            auto hi = [&](int x) { return nodes[x].var == v ? nodes[x].hi : x; };
            int l = ite(lo(f), lo(g), lo(h));
            int r = ite(hi(f), hi(g), hi(h));
            int res = mk(v, l, r);
            return ite_cache[k] = res;
        }
    };
    inline table& tab() { static table t; return t; }
}

class bdd {
    int _id = 0;
public:
    bdd() = default;
    explicit bdd(int id) : _id(id) {}
    int id() const { return _id; }
    bdd operator&(const bdd& o) const { return bdd(vp_bdd::tab().ite(_id, o._id, 0)); }
    bdd operator|(const bdd& o) const { return bdd(vp_bdd::tab().ite(_id, 1, o._id)); }
    bdd operator!() const { return bdd(vp_bdd::tab().ite(_id, 0, 1)); }
    bdd operator-(const bdd& o) const { return *this & !o; }
    bdd operator^(const bdd& o) const { return bdd(vp_bdd::tab().ite(_id, (!o)._id, o._id)); }
    bdd& operator&=(const bdd& o) { return *this = *this & o; }
    bdd& operator|=(const bdd& o) { return *this = *this | o; }
    bool operator==(const bdd& o) const { return _id == o._id; }
    bool operator!=(const bdd& o) const { return _id != o._id; }
};
inline const bdd bddtrue(1);
inline const bdd bddfalse(0);
inline bdd bdd_true() { return bddtrue; }
inline bdd bdd_false() { return bddfalse; }
inline bdd bdd_not(const bdd& b) { return !b; }
inline bdd bdd_ithvar(int v) { return bdd(vp_bdd::tab().mk(v, 0, 1)); }
inline bdd bdd_nithvar(int v) { return bdd(vp_bdd::tab().mk(v, 1, 0)); }
inline int bdd_var(const bdd& b) { return vp_bdd::tab().nodes[b.id()].var; }
inline bdd bdd_low(const bdd& b) { return bdd(vp_bdd::tab().nodes[b.id()].lo); }
inline bdd bdd_high(const bdd& b) { return bdd(vp_bdd::tab().nodes[b.id()].hi); }

namespace spot {
// ------------------------------------------------------------------- formulae
enum class op : uint8_t {
    ff, tt, eword, ap, Not, X, F, G, Closure, NegClosure, NegClosureMarked,
    Xor, Implies, Equiv, U, R, W, M, EConcat, EConcatMarked, UConcat,
    Or, OrRat, And, AndRat, AndNLM, Concat, Fusion, Star, FStar, first_match, strong_X
};

class formula {
    struct node {
        op kind;
        std::string name;
        std::vector<formula> kids;
        size_t uid;
    };
    using ptr = const node*;
    ptr _n = nullptr;
    explicit formula(ptr n) : _n(n) {}
    static formula make(op k, std::vector<formula> kids, std::string name = "") {
        static std::map<std::tuple<op, std::vector<size_t>, std::string>, std::unique_ptr<node>> table;
        std::vector<size_t> ids;
        for (auto& c : kids) ids.push_back(c._n->uid);
        auto key = std::make_tuple(k, ids, name);
        auto it = table.find(key);
        if (it == table.end()) {
            auto n = std::make_unique<node>();
            n->kind = k; n->name = name; n->kids = std::move(kids); n->uid = table.size() + 1;
            it = table.emplace(key, std::move(n)).first;
        }
        return formula(it->second.get());
    }
    static formula multop(op k, const std::vector<formula>& v) {
        const op neutral = k == op::And ? op::tt : op::ff;
        const op absorb = k == op::And ? op::ff : op::tt;
        std::vector<formula> out;
        std::function<bool(const std::vector<formula>&)> add = [&](const std::vector<formula>& fs) {
            for (auto& f : fs) {
                if (f.kind() == absorb) return false;
                if (f.kind() == neutral) continue;
                if (f.kind() == k) { if (!add(f._n->kids)) return false; }
                else out.push_back(f);
            }
            return true;
        };
        if (!add(v)) return make(absorb, {});
        std::sort(out.begin(), out.end());
        out.erase(std::unique(out.begin(), out.end()), out.end());
        if (out.empty()) return make(neutral, {});
        if (out.size() == 1) return out[0];
        return make(k, out);
    }
public:
    formula() = default;
    static formula tt() { return make(op::tt, {}); }
    static formula ff() { return make(op::ff, {}); }
    static formula ap(const std::string& n) { return make(op::ap, {}, n); }
    static formula Not(const formula& f) {
        if (f.kind() == op::Not) return f[0];
        if (f.is_tt()) return ff();
        if (f.is_ff()) return tt();
        return make(op::Not, {f});
    }
    static formula And(const std::vector<formula>& v) { return multop(op::And, v); }
    static formula Or(const std::vector<formula>& v) { return multop(op::Or, v); }
    static formula X(const formula& f) { return f.is_tt() || f.is_ff() ? f : make(op::X, {f}); }
    static formula F(const formula& f) { return f.is_tt() || f.is_ff() || f.kind() == op::F ? f : make(op::F, {f}); }
    static formula G(const formula& f) { return f.is_tt() || f.is_ff() || f.kind() == op::G ? f : make(op::G, {f}); }
    static formula U(const formula& a, const formula& b) {
        if (b.is_tt() || b.is_ff() || a.is_ff() || a == b) return b;
        if (a.is_tt()) return F(b);
        return make(op::U, {a, b});
    }
    static formula R(const formula& a, const formula& b) {
        if (b.is_tt() || b.is_ff() || a.is_tt() || a == b) return b;
        if (a.is_ff()) return G(b);
        return make(op::R, {a, b});
    }
    static formula W(const formula& a, const formula& b) { return make(op::W, {a, b}); }
    static formula M(const formula& a, const formula& b) { return make(op::M, {a, b}); }
    op kind() const { return _n->kind; }
    bool is_tt() const { return kind() == op::tt; }
    bool is_ff() const { return kind() == op::ff; }
    bool is(op o) const { return kind() == o; }
    size_t size() const { return _n->kids.size(); }
    const formula& operator[](size_t i) const { return _n->kids[i]; }
    auto begin() const { return _n->kids.begin(); }
    auto end() const { return _n->kids.end(); }
    const std::string& ap_name() const { return _n->name; }
    size_t id() const { return _n ? _n->uid : 0; }
    bool operator==(const formula& o) const { return _n == o._n; }
    bool operator!=(const formula& o) const { return _n != o._n; }
    bool operator<(const formula& o) const { return id() < o.id(); }
    explicit operator bool() const { return _n != nullptr; }
    std::ostream& dump(std::ostream& os) const {
        switch (kind()) {
            case op::tt: return os << "1";
            case op::ff: return os << "0";
            case op::ap: return os << '"' << ap_name() << '"';
            case op::Not: os << "!("; break;
            case op::X: os << "X("; break;
            case op::F: os << "F("; break;
            case op::G: os << "G("; break;
            case op::U: os << "U("; break;
            case op::R: os << "R("; break;
            case op::W: os << "W("; break;
            case op::M: os << "M("; break;
            case op::And: os << "&("; break;
            case op::Or: os << "|("; break;
            default: os << "?("; break;
        }
        bool first = true;
        for (auto& c : *this) { if (!first) os << ", "; first = false; c.dump(os); }
        return os << ")";
    }
};
inline std::ostream& operator<<(std::ostream& os, const formula& f) { return f.dump(os); }

inline formula vp_nnf(const formula& f, bool neg) {
    auto kids = [&](bool n) { std::vector<formula> v; for (auto& c : f) v.push_back(vp_nnf(c, n)); return v; };
    switch (f.kind()) {
        case op::tt: return neg ? formula::ff() : f;
        case op::ff: return neg ? formula::tt() : f;
        case op::ap: return neg ? formula::Not(f) : f;
        case op::Not: return vp_nnf(f[0], !neg);
        case op::And: return neg ? formula::Or(kids(true)) : formula::And(kids(false));
        case op::Or: return neg ? formula::And(kids(true)) : formula::Or(kids(false));
        case op::X: return formula::X(vp_nnf(f[0], neg));
        case op::F: return neg ? formula::G(vp_nnf(f[0], true)) : formula::F(vp_nnf(f[0], false));
        case op::G: return neg ? formula::F(vp_nnf(f[0], true)) : formula::G(vp_nnf(f[0], false));
        case op::U: return neg ? formula::R(vp_nnf(f[0], true), vp_nnf(f[1], true))
                               : formula::U(vp_nnf(f[0], false), vp_nnf(f[1], false));
        case op::R: return neg ? formula::U(vp_nnf(f[0], true), vp_nnf(f[1], true))
                               : formula::R(vp_nnf(f[0], false), vp_nnf(f[1], false));
        case op::W: // a W b = b R (a | b)
            return vp_nnf(formula::R(f[1], formula::Or({f[0], f[1]})), neg);
        case op::M: // a M b = b U (a & b)
            return vp_nnf(formula::U(f[1], formula::And({f[0], f[1]})), neg);
        default: throw std::runtime_error("stand-in spot: unsupported operator");
    }
}

class tl_simplifier {
public:
    explicit tl_simplifier(int = 1) {}
    formula simplify(const formula& f) { return rw(vp_nnf(f, false)); }
private:
    static formula rw(const formula& f) {
        std::vector<formula> k;
        for (auto& c : f) k.push_back(rw(c));
        switch (f.kind()) {
            case op::And: {
                auto r = formula::And(k);
                if (r.is(op::And)) for (auto& c : r) for (auto& d : r) if (d == formula::Not(c)) return formula::ff();
                return r;
            }
            case op::Or: {
                auto r = formula::Or(k);
                if (r.is(op::Or)) for (auto& c : r) for (auto& d : r) if (d == formula::Not(c)) return formula::tt();
                return r;
            }
            case op::X: // X GF a = GF a, X FG a = FG a
                if (k[0].is(op::G) && k[0][0].is(op::F)) return k[0];
                if (k[0].is(op::F) && k[0][0].is(op::G)) return k[0];
                return formula::X(k[0]);
            case op::F: // F(GF a) = GF a, F X a = X F a, F(a U b) = F b
                if (k[0].is(op::G) && k[0][0].is(op::F)) return k[0];
                if (k[0].is(op::X)) return formula::X(formula::F(k[0][0]));
                if (k[0].is(op::U)) return formula::F(k[0][1]);
                return formula::F(k[0]);
            case op::G: // G(FG a) = FG a, G X a = X G a
                if (k[0].is(op::F) && k[0][0].is(op::G)) return k[0];
                if (k[0].is(op::X)) return formula::X(formula::G(k[0][0]));
                return formula::G(k[0]);
            case op::U: // a U F b = F b
                if (k[1].is(op::F)) return k[1];
                return formula::U(k[0], k[1]);
            case op::R:
                if (k[1].is(op::G)) return k[1];
                return formula::R(k[0], k[1]);
            default: return f;
        }
    }
};

inline formula unabbreviate(const formula& f, const char* ops) {
    auto has = [&](char c) { return std::strchr(ops, c) != nullptr; };
    std::vector<formula> k;
    for (auto& c : f) k.push_back(unabbreviate(c, ops));
    switch (f.kind()) {
        case op::tt: case op::ff: case op::ap: return f;
        case op::Not: return formula::Not(k[0]);
        case op::And: return formula::And(k);
        case op::Or: return formula::Or(k);
        case op::X: return formula::X(k[0]);
        case op::F: return formula::F(k[0]);
        case op::G: return formula::G(k[0]);
        case op::U: return formula::U(k[0], k[1]);
        case op::R: // a R b = (b U (a & b)) | G b
            if (!has('R')) return formula::R(k[0], k[1]);
            return formula::Or({formula::U(k[1], formula::And({k[0], k[1]})), formula::G(k[1])});
        case op::W:
            if (!has('W')) return formula::W(k[0], k[1]);
            return formula::Or({formula::U(k[0], k[1]), formula::G(k[0])});
        case op::M:
            if (!has('M')) return formula::M(k[0], k[1]);
            return formula::U(k[1], formula::And({k[0], k[1]}));
        default: throw std::runtime_error("stand-in spot: unsupported operator");
    }
}

// ------------------------------------------------------------------- automata
class bdd_dict {
public:
    int register_ap(const std::string& n) {
        auto it = var_of.find(n);
        if (it != var_of.end()) return it->second;
        int v = (int) names.size();
        names.push_back(n);
        return var_of[n] = v;
    }
    std::map<std::string, int> var_of;
    std::vector<std::string> names;
};
using bdd_dict_ptr = std::shared_ptr<bdd_dict>;
inline bdd_dict_ptr make_bdd_dict() { return std::make_shared<bdd_dict>(); }

// Minato-Morreale irredundant sum of products between lower bound l and upper bound u
inline formula vp_isop(bdd l, bdd u, const bdd_dict& d, bdd& covered) {
    if (l == bddfalse) { covered = bddfalse; return formula::ff(); }
    if (u == bddtrue) { covered = bddtrue; return formula::tt(); }
    int v = std::min(bdd_var(l), bdd_var(u));
    auto lo = [&](bdd b) { return bdd_var(b) == v && b.id() > 1 ? bdd_low(b) : b; };
    auto hi = [&](bdd b) { return bdd_var(b) == v && b.id() > 1 ? bdd_high(b) : b; };
    bdd c0, c1, cd;
    formula f0 = vp_isop(lo(l) - hi(u), lo(u), d, c0);
    formula f1 = vp_isop(hi(l) - lo(u), hi(u), d, c1);
    bdd ld = (lo(l) - c0) | (hi(l) - c1);
    formula fd = vp_isop(ld, lo(u) & hi(u), d, cd);
    formula a = formula::ap(d.names.at(v));
    covered = (bdd_nithvar(v) & c0) | (bdd_ithvar(v) & c1) | cd;
    std::vector<formula> terms;
    auto distribute = [&](const formula& lit, const formula& f) {
        if (f.is(op::Or)) for (auto& t : f) terms.push_back(formula::And({lit, t}));
        else terms.push_back(formula::And({lit, f}));
    };
    distribute(formula::Not(a), f0);
    distribute(a, f1);
    terms.push_back(fd);
    return formula::Or(terms);
}
inline formula bdd_to_formula(const bdd& b, const bdd_dict_ptr& d) {
    bdd c;
    return vp_isop(b, b, *d, c);
}

class state {
public:
    virtual void destroy() const = 0;
    virtual ~state() = default;
};
class twa_succ_iterator {
public:
    virtual bool first() = 0;
    virtual bool next() = 0;
    virtual bool done() const = 0;
    virtual const state* dst() const = 0;
    virtual bdd cond() const = 0;
    virtual ~twa_succ_iterator() = default;
};
class twa : public std::enable_shared_from_this<twa> {
public:
    virtual ~twa() = default;
};
using const_twa_ptr = std::shared_ptr<const twa>;

class twa_graph : public twa {
public:
    struct edge { unsigned dst; bdd cond; };
    struct gstate : public state {
        unsigned num = 0;
        void destroy() const override {}
    };
    explicit twa_graph(bdd_dict_ptr d) : _dict(std::move(d)) {}
    unsigned new_state(bool acc) {
        _out.emplace_back(); _acc.push_back(acc);
        _states.emplace_back(); _states.back().num = (unsigned) _out.size() - 1;
        return (unsigned) _out.size() - 1;
    }
    void add_edge(unsigned s, unsigned d, const bdd& c) {
        if (c == bddfalse) return;
        for (auto& e : _out[s]) if (e.dst == d) { e.cond |= c; return; }
        _out[s].push_back({d, c});
    }
    unsigned num_states() const { return (unsigned) _out.size(); }
    const std::vector<edge>& out(unsigned s) const { return _out[s]; }
    std::vector<edge>& out(unsigned s) { return _out[s]; }
    bool state_is_accepting(unsigned s) const { return _acc[s]; }
    bool state_is_accepting(const state* s) const { return _acc[state_number(s)]; }
    void set_accepting(unsigned s, bool a) { _acc[s] = a; }
    unsigned get_init_state_number() const { return _init; }
    void set_init_state(unsigned s) { _init = s; }
    const state* state_from_number(unsigned n) const { return &_states[n]; }
    unsigned state_number(const state* s) const { return static_cast<const gstate*>(s)->num; }
    int register_ap(const std::string& n) { return _dict->register_ap(n); }
    const bdd_dict_ptr& get_dict() const { return _dict; }
    class iter : public twa_succ_iterator {
    public:
        iter(const twa_graph* g, unsigned s) : _g(g), _s(s) {}
        bool first() override { _i = 0; return !done(); }
        bool next() override { ++_i; return !done(); }
        bool done() const override { return _i >= _g->_out[_s].size(); }
        const state* dst() const override { return _g->state_from_number(_g->_out[_s][_i].dst); }
        bdd cond() const override { return _g->_out[_s][_i].cond; }
    private:
        const twa_graph* _g; unsigned _s; size_t _i = 0;
    };
    twa_succ_iterator* succ_iter(const state* s) const { return new iter(this, state_number(s)); }
    void release_iter(twa_succ_iterator* it) const { delete it; }
private:
    bdd_dict_ptr _dict;
    std::vector<std::vector<edge>> _out;
    std::vector<bool> _acc;
    std::deque<gstate> _states;
    unsigned _init = 0;
};
using twa_graph_ptr = std::shared_ptr<twa_graph>;
using const_twa_graph_ptr = std::shared_ptr<const twa_graph>;

struct twa_run {
    struct step { const state* s; bdd label; };
    using steps = std::list<step>;
};

class bfs_steps {
public:
    explicit bfs_steps(const const_twa_ptr& a) : a_(a) {}
    virtual ~bfs_steps() = default;
    const state* search(const state* start, twa_run::steps& l) {
        auto g = std::dynamic_pointer_cast<const twa_graph>(a_);
        std::map<unsigned, std::pair<unsigned, twa_run::step>> father;
        std::deque<unsigned> todo{g->state_number(start)};
        std::set<unsigned> seen{todo.front()};
        const unsigned s0 = todo.front();
        while (!todo.empty()) {
            unsigned src = todo.front(); todo.pop_front();
            for (auto& e : g->out(src)) {
                const state* dest = filter(g->state_from_number(e.dst));
                if (!dest) continue;
                twa_run::step st{g->state_from_number(src), e.cond};
                if (match(st, dest)) {
                    twa_run::steps out{st};
                    for (unsigned c = src; c != s0;) { auto& f = father.at(c); out.push_front(f.second); c = f.first; }
                    l.splice(l.end(), out);
                    return dest;
                }
                if (seen.insert(e.dst).second) { father[e.dst] = {src, st}; todo.push_back(e.dst); }
            }
        }
        return nullptr;
    }
    virtual const state* filter(const state* s) = 0;
    virtual bool match(twa_run::step& step, const state* dest) = 0;
protected:
    const_twa_ptr a_;
};

class postprocessor {
public:
    enum output_type { TGBA, BA, Monitor, Generic, Parity, Buchi, GeneralizedBuchi };
    enum optimization_level { Low, Medium, High };
};

class translator : public postprocessor {
public:
    translator() = default;
    void set_type(output_type) {}
    void set_level(optimization_level) {}
    twa_graph_ptr run(const formula& in) {
        auto dict = make_bdd_dict();
        formula f = tl_simplifier{}.simplify(in);
        collect(in, *dict);
        // ---- tableau: TGBA with transition-based acceptance
        using sset = std::set<formula>;
        struct tr { bdd label; size_t dst; std::set<size_t> postponed; };
        std::map<sset, size_t> ids;
        std::vector<sset> states;
        std::vector<std::vector<tr>> edges;
        std::map<formula, size_t> untils;
        auto get = [&](const sset& s) {
            auto r = ids.emplace(s, states.size());
            if (r.second) { states.push_back(s); edges.emplace_back(); }
            return r.first->second;
        };
        size_t init = get(conj(f));
        for (size_t i = 0; i < states.size(); ++i) {
            if (states.size() > 20000) throw std::runtime_error("too many children for formula");
            for (auto& [key, label] : expand(states[i], *dict)) {
                std::set<size_t> post;
                for (auto& u : key.second) post.insert(untils.emplace(u, untils.size()).first->second);
                size_t d = get(key.first);
                edges[i].push_back({label, d, post});
            }
        }
        const size_t n = untils.size();
        // ---- degeneralise
        std::map<std::pair<size_t, size_t>, size_t> did;
        std::vector<std::pair<size_t, size_t>> dst;
        struct ba { std::vector<std::map<size_t, bdd>> out; std::vector<bool> acc; size_t init = 0; } a;
        auto dget = [&](size_t s, size_t l) {
            auto r = did.emplace(std::make_pair(s, l), dst.size());
            if (r.second) { dst.emplace_back(s, l); a.out.emplace_back(); a.acc.push_back(l == n); }
            return r.first->second;
        };
        a.init = dget(init, n);
        for (size_t i = 0; i < dst.size(); ++i) {
            auto [s, l] = dst[i];
            for (auto& e : edges[s]) {
                size_t j = l == n ? 0 : l;
                while (j < n && e.postponed.count(j) == 0) ++j;
                size_t d = dget(e.dst, j);
                auto r = a.out[i].emplace(d, e.label);
                if (!r.second) r.first->second |= e.label;
            }
        }
        // ---- useful states: those that reach a non-trivial SCC with an accepting state
        auto scc = sccs(a.out);
        std::vector<bool> cyc(scc.second, false), good(scc.second, false);
        for (size_t i = 0; i < a.out.size(); ++i)
            for (auto& e : a.out[i]) if (scc.first[e.first] == scc.first[i]) cyc[scc.first[i]] = true;
        for (size_t i = 0; i < a.out.size(); ++i) {
            if (!cyc[scc.first[i]]) a.acc[i] = false;   // acceptance outside cycles is irrelevant
            if (a.acc[i]) good[scc.first[i]] = true;
        }
        std::vector<bool> useful(a.out.size(), false);
        for (size_t i = 0; i < a.out.size(); ++i) useful[i] = good[scc.first[i]];
        for (bool ch = true; ch;) {
            ch = false;
            for (size_t i = 0; i < a.out.size(); ++i)
                if (!useful[i]) for (auto& e : a.out[i]) if (useful[e.first]) { useful[i] = ch = true; break; }
        }
        for (size_t i = 0; i < a.out.size(); ++i)
            for (auto it = a.out[i].begin(); it != a.out[i].end();)
                it = useful[i] && useful[it->first] ? std::next(it) : a.out[i].erase(it);
        // ---- merge bisimilar states
        std::vector<size_t> cls(a.out.size());
        size_t ncls = 0;
        for (size_t i = 0; i < cls.size(); ++i) cls[i] = a.acc[i];
        for (;;) {
            std::map<std::tuple<size_t, std::vector<std::pair<size_t, int>>>, size_t> sig;
            std::vector<size_t> nc(cls.size());
            for (size_t i = 0; i < cls.size(); ++i) {
                std::map<size_t, bdd> m;
                for (auto& e : a.out[i]) {
                    auto r = m.emplace(cls[e.first], e.second);
                    if (!r.second) r.first->second |= e.second;
                }
                std::vector<std::pair<size_t, int>> v;
                for (auto& e : m) v.emplace_back(e.first, e.second.id());
                nc[i] = sig.emplace(std::make_tuple(cls[i], v), sig.size()).first->second;
            }
            cls = nc;
            if (sig.size() == ncls) break;
            ncls = sig.size();
        }
        // ---- output, states numbered in BFS order from the initial one
        auto g = std::make_shared<twa_graph>(dict);
        std::map<size_t, unsigned> num;
        std::deque<size_t> todo{a.init};
        num[cls[a.init]] = g->new_state(a.acc[a.init]);
        g->set_init_state(0);
        while (!todo.empty()) {
            size_t i = todo.front(); todo.pop_front();
            for (auto& e : a.out[i]) {
                auto r = num.emplace(cls[e.first], 0);
                if (r.second) { r.first->second = g->new_state(a.acc[e.first]); todo.push_back(e.first); }
                g->add_edge(num[cls[i]], r.first->second, e.second);
            }
        }
        return g;
    }
private:
    using key_t = std::pair<std::set<formula>, std::set<formula>>;   // next obligations, postponed untils
    static void collect(const formula& f, bdd_dict& d) {
        if (f.is(op::ap)) d.register_ap(f.ap_name());
        for (auto& c : f) collect(c, d);
    }
    static std::set<formula> conj(const formula& f) {
        if (f.is_tt()) return {};
        if (f.is(op::And)) return std::set<formula>(f.begin(), f.end());
        return {f};
    }
    using dnf_t = std::map<key_t, bdd>;
    static void add(dnf_t& d, const key_t& k, const bdd& b) {
        if (b == bddfalse) return;
        auto r = d.emplace(k, b);
        if (!r.second) r.first->second |= b;
    }
    static dnf_t product(const dnf_t& x, const dnf_t& y) {
        dnf_t r;
        for (auto& a : x) for (auto& b : y) {
            bdd l = a.second & b.second;
            if (l == bddfalse) continue;
            key_t k = a.first;
            k.first.insert(b.first.first.begin(), b.first.first.end());
            k.second.insert(b.first.second.begin(), b.first.second.end());
            if (k.first.count(formula::ff())) continue;
            add(r, k, l);
        }
        if (r.size() > 20000) throw std::runtime_error("too many children for formula");
        return r;
    }
    static dnf_t sum(dnf_t x, const dnf_t& y) { for (auto& e : y) add(x, e.first, e.second); return x; }
    static dnf_t next(const formula& f) { return dnf_t{{key_t{conj(f), {}}, bddtrue}}; }
    static dnf_t exp1(const formula& f, bdd_dict& d) {
        switch (f.kind()) {
            case op::tt: return dnf_t{{key_t{}, bddtrue}};
            case op::ff: return {};
            case op::ap: return dnf_t{{key_t{}, bdd_ithvar(d.register_ap(f.ap_name()))}};
            case op::Not: return dnf_t{{key_t{}, bdd_nithvar(d.register_ap(f[0].ap_name()))}};
            case op::And: { dnf_t r{{key_t{}, bddtrue}}; for (auto& c : f) r = product(r, exp1(c, d)); return r; }
            case op::Or: { dnf_t r; for (auto& c : f) r = sum(r, exp1(c, d)); return r; }
            case op::X: return next(f[0]);
            case op::G: return product(exp1(f[0], d), next(f));
            case op::F: return sum(exp1(f[0], d), dnf_t{{key_t{{f}, {f}}, bddtrue}});
            case op::U: return sum(exp1(f[1], d), product(exp1(f[0], d), dnf_t{{key_t{{f}, {f}}, bddtrue}}));
            case op::R: return product(exp1(f[1], d), sum(exp1(f[0], d), next(f)));
            default: throw std::runtime_error("stand-in spot: unsupported operator");
        }
    }
    static dnf_t expand(const std::set<formula>& s, bdd_dict& d) {
        dnf_t r{{key_t{}, bddtrue}};
        for (auto& f : s) r = product(r, exp1(f, d));
        return r;
    }
    static std::pair<std::vector<size_t>, size_t> sccs(const std::vector<std::map<size_t, bdd>>& out) {
        const size_t n = out.size(), none = (size_t) -1;
        std::vector<size_t> comp(n, none), idx(n, none), low(n, 0), st;
        std::vector<bool> on(n, false);
        size_t cnt = 0, ncomp = 0;
        for (size_t r = 0; r < n; ++r) {
            if (idx[r] != none) continue;
            std::vector<std::pair<size_t, std::map<size_t, bdd>::const_iterator>> call;
            auto enter = [&](size_t v) { idx[v] = low[v] = cnt++; st.push_back(v); on[v] = true; call.emplace_back(v, out[v].begin()); };
            enter(r);
            while (!call.empty()) {
                auto& [v, it] = call.back();
                if (it != out[v].end()) {
                    size_t w = it->first; ++it;
                    if (idx[w] == none) enter(w);
                    else if (on[w]) low[v] = std::min(low[v], idx[w]);
                } else {
                    size_t v2 = v;
                    if (low[v2] == idx[v2]) {
                        for (;;) { size_t w = st.back(); st.pop_back(); on[w] = false; comp[w] = ncomp; if (w == v2) break; }
                        ++ncomp;
                    }
                    call.pop_back();
                    if (!call.empty()) low[call.back().first] = std::min(low[call.back().first], low[v2]);
                }
            }
        }
        return {comp, ncomp};
    }
};

// --------------------------------------------------------------------- output
inline std::ostream& print_hoa(std::ostream& os, const const_twa_graph_ptr& g, const char* = nullptr) {
    os << "HOA: v1\nStates: " << g->num_states() << "\nStart: " << g->get_init_state_number()
       << "\nAP: " << g->get_dict()->names.size();
    for (auto& n : g->get_dict()->names) os << " \"" << n << '"';
    os << "\nacc-name: Buchi\nAcceptance: 1 Inf(0)\nproperties: state-acc\n--BODY--\n";
    for (unsigned s = 0; s < g->num_states(); ++s) {
        os << "State: " << s << (g->state_is_accepting(s) ? " {0}" : "") << "\n";
        for (auto& e : g->out(s)) os << "[" << bdd_to_formula(e.cond, g->get_dict()) << "] " << e.dst << "\n";
    }
    return os << "--END--\n";
}
inline std::ostream& print_dot(std::ostream& os, const const_twa_graph_ptr& g, const char* = nullptr) {
    os << "digraph \"\" {\n";
    for (unsigned s = 0; s < g->num_states(); ++s)
        for (auto& e : g->out(s)) os << "  " << s << " -> " << e.dst << "\n";
    return os << "}\n";
}
inline std::ostream& print_never_claim(std::ostream& os, const const_twa_graph_ptr& g, const char* = nullptr) {
    return print_hoa(os, g);
}
}
#endif
