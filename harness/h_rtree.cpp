// Drives RTree through the operations of a script, one line each:
//   insert id x1 y1 x2 y2 | remove id x1 y1 x2 y2 | clear | query x1 y1 x2 y2
//   new | stop k x1 y1 x2 y2 | count | iterate | saveload | cquery ... | citerate
// The tree holds pointers, as the tracker's does.
#include <map>
#include "common.hpp"
#include "RTree.h"
using namespace vt;

struct Item { int id; };
using Tree = RTree<Item*, double, 2>;
static std::map<int, Item*> items;
static Item* item(int id) {
    auto& p = items[id];
    if (!p) { p = new Item{id}; }
    return p;
}
struct Hits { std::vector<int> ids; int stop; };
static int idof(Item* p) {
    for (auto& kv : items) { if (kv.second == p) { return kv.first; } }
    return -1;
}
static bool visit(Item* p, void* ctx) {
    auto h = static_cast<Hits*>(ctx);
    h->ids.push_back(idof(p));
    return !(h->stop > 0 && static_cast<int>(h->ids.size()) >= h->stop);
}
static std::string box(const double* b) { return ints(std::vector<double>(b, b + 4)); }
static void iterate(const char* name, Tree& t) {
    std::vector<int> ids; std::string boxes = "[";
    Tree::Iterator it;
    int n = 0;
    for (t.GetFirst(it); !t.IsNull(it) && n < 100000; t.GetNext(it), ++n) {
        ids.push_back(idof(*it));
        double b[4]; it.GetBounds(b, b + 2);
        boxes += (ids.size() > 1 ? "," : "") + box(b);
    }
    Ev(name).raw("ids", ints(ids)).raw("boxes", boxes + "]");
}

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    open(argv[2]);
    std::string file = std::string(argv[2]) + ".tree";
    Tree* tp = new Tree;
    Tree* copy = new Tree;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op; int id = 0, k = 0; double b[4];
        is >> op;
        if (op == "insert" || op == "remove") { is >> id; }
        if (op == "stop") { is >> k; }
        for (double& x : b) { is >> x; }
        watch();
        if (op == "new") { delete tp; tp = new Tree; Ev e("new"); continue; }
        Tree& t = *tp;
        if (op == "insert") {
            t.Insert(b, b + 2, item(id));
            Ev("insert").i("id", id).raw("box", box(b));
        } else if (op == "remove") {
            t.Remove(b, b + 2, item(id));
            Ev("remove").i("id", id);
        } else if (op == "clear") {
            t.RemoveAll();
            Ev e("clear");
        } else if (op == "query") {
            Hits h{{}, 0};
            int n = t.Search(b, b + 2, visit, &h);
            Ev("query").raw("q", box(b)).raw("ids", ints(h.ids)).i("n", n);
        } else if (op == "stop") {
            Hits h{{}, k};
            t.Search(b, b + 2, visit, &h);
            Ev("stop").raw("q", box(b)).i("k", k).raw("ids", ints(h.ids));
        } else if (op == "count") {
            Ev("count").i("n", t.Count());
        } else if (op == "iterate") {
            iterate("iterate", t);
        } else if (op == "saveload") {
            bool ok = t.Save(file.c_str()) && copy->Load(file.c_str());
            Ev("saveload").b("ok", ok).i("n", copy->Count());
        } else if (op == "cquery") {
            Hits h{{}, 0};
            copy->Search(b, b + 2, visit, &h);
            Ev("cquery").raw("q", box(b)).raw("ids", ints(h.ids));
        } else if (op == "citerate") {
            iterate("citerate", *copy);
        }
    }
    return 0;
}
