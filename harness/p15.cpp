#include "sys.h"

static void run(Source &s, Ctx &ctx) {
    int L = gen_size(s, 6, 20, 90, ctx.thorough ? 600 : 300);
    if (s.chance(1, 4000)) { L = 400 + (int)s.below(2000); ctx.label("giant case"); }
    bool vast = s.chance(1, 60000); if (vast) { ctx.label("vast hierarchy"); }
    Tree t = vast ? gen_vast_tree(s) : gen_tree(s, L, 6);
    std::ostringstream o; o << t.leaves << " leaves, parents [";
    for (int i = 0; i < t.size(); i++) { o << (i ? "," : "") << t.parents[i]; }
    o << "]\n";
    if (ctx.want_text) { ctx.say(o.str()); }
    int how = (int)s.below(3);
    lp::HValuesMetaData m = how == 0 ? lp::HValuesMetaData(t.leaves, t.parents)
                          : how == 1 ? lp::HValuesN1((unsigned)t.leaves, t.parents).getMetaData()
                          : lp::DValuesN2((unsigned)t.leaves, 1, t.parents).getMetaData();
    // the path is set by the constructor; setting it again is a public call, and describes the same tree
    int again = s.chance(1, 5) ? 1 + (int)s.below(2) : 0;
    for (int i = 0; i < again; i++) { m.setPath(); }
    if (again) { ctx.label("path set again"); if (ctx.want_text) { ctx.say("setPath called again\n"); } }
    int n = t.size();
    CHECK(ctx, (int)m.getHsize() == n, "reports " << m.getHsize() << " nodes instead of " << n);
    CHECK(ctx, m.getLeaveSize() == t.leaves, "reports " << m.getLeaveSize() << " leaves instead of " << t.leaves);
    CHECK(ctx, m.getParents() == t.parents, "reports other parents");
    CHECK(ctx, m.getRoot() == t.root, "reports root " << m.getRoot() << " instead of " << t.root);
    auto ch = m.getChildren();
    CHECK(ctx, (int)ch.size() == n, "reports children of " << ch.size() << " nodes instead of " << n);
    for (int h = 0; h < n; h++) {
        std::vector<int> a = ch[h], b = t.children[h];
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        CHECK(ctx, a == b, "reports " << a.size() << " children of node " << h << ", which has " << b.size() << ", or other ones");
    }
    std::map<int, int> size = m.getSize();
    CHECK(ctx, (int)size.size() == n, "reports the size of " << size.size() << " nodes instead of " << n);
    for (int h = 0; h < n; h++) { CHECK(ctx, size.count(h) && size[h] == (int)t.below[h].size(), "reports " << size[h] << " leaves below node " << h << " instead of " << t.below[h].size()); }
    std::vector<int> path = m.getPath();
    CHECK(ctx, (int)path.size() == n, "the path has " << path.size() << " nodes instead of " << n);
    std::vector<int> seen(n, 0);
    for (int i = 0; i < n; i++) {
        int h = path[i];
        CHECK(ctx, h >= 0 && h < n && !seen[h], "the path visits node " << h << " again or it does not exist");
        seen[h] = 1;
        CHECK(ctx, (i < t.leaves) == (h < t.leaves), "the leaves are not first on the path");
        for (int c : t.children[h]) { CHECK(ctx, seen[c], "the path visits node " << h << " before its child " << c); }
    }
    CHECK(ctx, path.back() == t.root, "the path does not end at the root");
    ctx.nontrivial = n - t.leaves > 1;
    if (t.uneven()) { ctx.label("leaves at different depths"); }
    if (t.root != n - 1) { ctx.label("root not numbered last"); }
    if (t.height() >= 3) { ctx.label("height >= 3"); }
    for (auto &c : t.children) { if (c.size() == 1) { ctx.label("single-child node"); break; } }
}
const pbt::Property pbt::property = {"P15",
    "random rooted trees of five shapes with random numberings of the inner nodes; every getter is compared with the tree. Non-trivial: more than one inner node.", run};
