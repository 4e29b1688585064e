// Recursive values: an Enum that holds a Vector of itself. Parts of a value are assigned to the whole.
#ifndef MC_TREE_WORLD_HPP
#define MC_TREE_WORLD_HPP
#include "mc/core.hpp"
#include "efp.hpp"

namespace mc {

struct Tree;
typedef efp::Vector<Tree> Kids;
typedef efp::Enum<Tracked, Kids> TreeE;
struct Tree {
    TreeE e;
    Tree() : e(Tracked(0)) {}
    explicit Tree(int v) : e(Tracked(v)) {}
    explicit Tree(const TreeE& x) : e(x) {}
    bool operator==(const Tree& o) const {
        return e == o.e;
    }
};
struct TreeM {
    int v;
    bool node;
    std::vector<TreeM> kids;
    explicit TreeM(int x = 0) : v(x), node(false) {}
    bool operator==(const TreeM& o) const {
        return node == o.node && (node ? kids == o.kids : v == o.v);
    }
    size_t size() const {
        size_t n = 1;
        for (const TreeM& k : kids)
            n += k.size();
        return n;
    }
    void key(Hash& h) const {
        h.u(node ? 1000 + kids.size() : size_t(v));
        for (const TreeM& k : kids)
            k.key(h);
    }
};

struct TreeWorld {
    Cell<TreeE> a, b;
    TreeM ma, mb;
    enum Op {
        LEAF, NODE0, NODE_B, PUSH_B, PUSH_SELF, INS_SELF, PUSH_KID, UP_COPY, UP_MOVE, UP_ALT, UP_ALT_MOVE, UP2_COPY, UP2_MOVE, LIFT, LIFT_COPY, LIFT_SWAP, KID_SELF, ASG_BA, MOV_BA, ASG_AB, SWAP_KID, POP, NOPS
    };
    static int nops() {
        return NOPS;
    }
    TreeWorld() {
        new (a.blank()) TreeE(Tracked(0));
        new (b.blank()) TreeE(Tracked(1));
        mb = TreeM(1);
    }
    bool enabled(int o) const {
        if (ma.size() + mb.size() > 14 && (o == PUSH_B || o == PUSH_SELF || o == INS_SELF || o == KID_SELF || o == NODE_B))
            return false;
        bool kid = ma.node && !ma.kids.empty();
        bool kidnode = kid && ma.kids.back().node;
        switch (o) {
            case PUSH_B: case PUSH_SELF: case INS_SELF:
                return ma.node;
            case PUSH_KID: case UP_COPY: case UP_MOVE: case KID_SELF: case SWAP_KID: case POP:
                return kid;
            case UP_ALT: case UP_ALT_MOVE: case LIFT: case LIFT_COPY: case LIFT_SWAP:
                return kidnode;
            case UP2_COPY: case UP2_MOVE:
                return kidnode && !ma.kids.back().kids.empty();
            default:
                return true;
        }
    }
    static Kids& kids(TreeE& e) {
        return e.get<Kids>();
    }
    Tree& last() {
        Kids& k = kids(*a);
        return k[k.size() - 1];
    }
    void apply(int o) {
        TreeE& x = *a;
        TreeE& y = *b;
        switch (o) {
            case LEAF:
                note("a=leaf 2");
                x = Tracked(2);
                ma = TreeM(2);
                break;
            case NODE0:
                note("a=node{}");
                x = Kids();
                ma = TreeM();
                ma.node = true;
                break;
            case NODE_B: {
                note("a=node{b,a}");
                Kids k;
                k.push_back(Tree(y));
                k.push_back(Tree(x));
                x = k;
                TreeM m;
                m.node = true;
                m.kids.push_back(mb);
                m.kids.push_back(ma);
                ma = m;
                break;
            }
            case PUSH_B:
                note("a.kids.push_back(b)");
                kids(x).push_back(Tree(y));
                ma.kids.push_back(mb);
                break;
            case PUSH_SELF: {
                note("a.kids.push_back(a)");
                kids(x).push_back(Tree(x));
                TreeM m(ma);
                ma.kids.push_back(m);
                break;
            }
            case INS_SELF: {
                note("a.kids.insert(0,a)");
                kids(x).insert(0, Tree(x));
                TreeM m(ma);
                ma.kids.insert(ma.kids.begin(), m);
                break;
            }
            case PUSH_KID: {
                note("a.kids.push_back(a.kids.last)");
                kids(x).push_back(last());
                TreeM m(ma.kids.back());
                ma.kids.push_back(m);
                break;
            }
            case UP_COPY: {
                note("a=a.kids.last");
                const TreeE& part = last().e;
                x = part;
                TreeM m(ma.kids.back());
                ma = m;
                break;
            }
            case UP_MOVE: {
                note("a=move(a.kids.last)");
                x = efp::move(last().e);
                TreeM m(ma.kids.back());
                ma = m;
                break;
            }
            case UP_ALT: {
                note("a=a.kids.last.kids");
                x = kids(last().e);
                TreeM m(ma.kids.back());
                ma = m;
                break;
            }
            case UP_ALT_MOVE: {
                note("a=move(a.kids.last.kids)");
                x = efp::move(kids(last().e));
                TreeM m(ma.kids.back());
                ma = m;
                break;
            }
            case UP2_COPY: {
                note("a=a.kids.last.kids[0]");
                const TreeE& part = kids(last().e)[0].e;
                x = part;
                TreeM m(ma.kids.back().kids[0]);
                ma = m;
                break;
            }
            case UP2_MOVE: {
                note("a=move(a.kids.last.kids[0])");
                x = efp::move(kids(last().e)[0].e);
                TreeM m(ma.kids.back().kids[0]);
                ma = m;
                break;
            }
            case LIFT: {
                note("a.kids=move(a.kids.last.kids)");
                kids(x) = efp::move(kids(last().e));
                TreeM m(ma.kids.back());
                ma = m;
                break;
            }
            case LIFT_COPY: {
                note("a.kids=a.kids.last.kids");
                const Kids& part = kids(last().e);
                kids(x) = part;
                TreeM m(ma.kids.back());
                ma = m;
                break;
            }
            case LIFT_SWAP: {
                note("t=move(a.kids.last.kids); swap(a.kids,t)");
                Kids t(efp::move(kids(last().e)));
                efp::swap(kids(x), t);
                TreeM m(ma.kids.back());
                ma = m;
                break;
            }
            case KID_SELF: {
                note("a.kids.last=a");
                TreeE whole(x);
                last().e = whole;
                TreeM m(ma);
                ma.kids.back() = m;
                break;
            }
            case ASG_BA:
                note("b=a");
                y = x;
                mb = ma;
                break;
            case MOV_BA:
                note("b=move(a); a=leaf 3");
                y = efp::move(x);
                mb = ma;
                x = Tracked(3);
                ma = TreeM(3);
                break;
            case ASG_AB:
                note("a=b");
                x = y;
                ma = mb;
                break;
            case SWAP_KID: {
                note("swap(a.kids.last,b)");
                efp::swap(last().e, y);
                TreeM m(mb);
                mb = ma.kids.back();
                ma.kids.back() = m;
                break;
            }
            case POP:
                note("a.kids.pop_back()");
                kids(x).pop_back();
                ma.kids.pop_back();
                break;
        }
    }
    static void same(const TreeE& e, const TreeM& m, const char* nm) {
        MC_CHECK((e.index() == 1) == m.node, "%s holds the wrong alternative", nm);
        if (!m.node) {
            MC_CHECK(val(e.get<Tracked>()) == m.v, "a leaf of %s is %d, expected %d", nm, val(e.get<Tracked>()), m.v);
            return;
        }
        const Kids& k = e.get<Kids>();
        MC_CHECK(k.size() == m.kids.size(), "a node of %s has %zu parts, expected %zu", nm, size_t(k.size()), m.kids.size());
        for (size_t i = 0; i < m.kids.size(); ++i)
            same(k[i].e, m.kids[i], nm);
    }
    void check() {
        same(*a, ma, "a");
        same(*b, mb, "b");
        MC_CHECK((*a == *b) == (ma == mb), "a == b is wrong");
    }
    void key(Hash& h) {
        ma.key(h);
        h.u(77);
        mb.key(h);
    }
};

}  // namespace mc
#endif
