// Elimination structure: PickCliqueOrder, GetData + storage, PathInTree.
#include <algorithm>
#include "common.h"
#include "conex/clique_ordering.h"
#include "conex/supernodal_solver.h"
#include "conex/tree_utils.h"

using namespace vh;
using VV = std::vector<std::vector<int>>;

static VV ReadCliques(Tok& t) {
  int n = t.i();
  VV c;
  for (int i = 0; i < n; i++) c.push_back(t.list());
  return c;
}

// Which entry (row label, column label) of the lower triangle does an address belong to?
static std::string Locate(conex::TriangularMatrixWorkspace& w, const double* p) {
  for (size_t b = 0; b < w.diagonal.size(); b++) {
    auto& d = w.diagonal[b];
    if (d.size() > 0 && p >= d.data() && p < d.data() + d.size()) {
      long off = p - d.data();
      int r = w.snodes[b][off % d.rows()], c = w.snodes[b][off / d.rows()];
      return "[" + std::to_string(std::max(r, c)) + "," + std::to_string(std::min(r, c)) + "]";
    }
    auto& o = w.off_diagonal[b];
    if (o.size() > 0 && p >= o.data() && p < o.data() + o.size()) {
      long off = p - o.data();
      int c = w.snodes[b][off % o.rows()], r = w.separators[b][off / o.rows()];
      return "[" + std::to_string(std::max(r, c)) + "," + std::to_string(std::min(r, c)) + "]";
    }
  }
  return "[-1,-1]";
}

static void Case(const std::vector<std::string>& lines) {
  for (auto& line : lines) {
    Tok t(line);
    std::string op = t.s();
    if (op == "pick") {
      int root = t.i();
      auto leaf = t.list();
      VV cl = ReadCliques(t);
      for (auto& c : cl) std::sort(c.begin(), c.end());
      std::vector<int> order;
      VV sn, sep;
      if (leaf.empty()) {
        conex::PickCliqueOrder(cl, root, &order, &sn, &sep);
      } else {
        conex::PickCliqueOrder(cl, leaf, root, &order, &sn, &sep);
      }
      Emit("pick", Json().vv("cliques", cl).i("root", root).ints("order", order).vv("sn", sn).vv("sep", sep));
    } else if (op == "data") {
      int root = t.i();
      auto leaf = t.list();
      VV cl = ReadCliques(t);
      auto d = leaf.empty() ? conex::GetData(cl, root) : conex::GetData(cl, leaf, root);
      conex::SparseTriangularMatrix mat(d);
      auto& w = mat.workspace_;
      std::string ss = "[";
      for (size_t b = 0; b < w.seperator_diagonal.size(); b++) {
        ss += b ? ",[" : "[";
        auto& s = w.separators[b];
        size_t cnt = 0;
        for (size_t j = 0; j < s.size(); j++)
          for (size_t i = j; i < s.size(); i++) {
            std::string got = cnt < w.seperator_diagonal[b].size() ? Locate(w, w.seperator_diagonal[b][cnt]) : "[-2,-2]";
            ss += std::string(cnt ? "," : "") + "{\"want\":[" + std::to_string(std::max(s[i], s[j])) + "," +
                  std::to_string(std::min(s[i], s[j])) + "],\"got\":" + got + "}";
            cnt++;
          }
        ss += "]";
      }
      ss += "]";
      Emit("data", Json().vv("cliques", cl).ints("order", d.clique_order).ints("perm", d.permutation)
                       .ints("iperm", d.permutation_inverse).i("N", d.N).ints("size", w.supernode_size)
                       .vv("snodes", w.snodes).vv("seps", w.separators).raw("ss", ss));
    } else if (op == "path") {
      int x = t.i(), y = t.i();
      auto parent = t.list();
      auto height = t.list();
      auto p = conex::PathInTree(x, y, parent, height);
      Emit("path", Json().i("x", x).i("y", y).ints("parent", parent).ints("height", height).ints("path", p));
    }
  }
}

int main() { return RunCases(Case); }
