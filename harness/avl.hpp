#pragma once
// Enumerates every AVL tree shape with n nodes and gives, for each, an insertion order that builds
// exactly that shape without rotations (level order).
#include <vector>
#include <algorithm>
struct Shape { int n, h; std::vector<int> level_order; };   // ranks 0..n-1 in level order
inline const std::vector<Shape> &avl_shapes(int n) {
  struct Node { int l, r; };   // indices of sub-shapes
  static std::vector<std::vector<Shape>> memo;
  struct Rec { // preorder description: ranks of (root, left subtree, right subtree)
    static void level(const std::vector<std::pair<int, int>> &lr, int root, std::vector<int> &out) {
      std::vector<int> q{root};
      for (size_t i = 0; i < q.size(); i++) { int x = q[i]; out.push_back(x); if (lr[x].first >= 0) q.push_back(lr[x].first); if (lr[x].second >= 0) q.push_back(lr[x].second); }
    }
  };
  struct T { int h, root; std::vector<std::pair<int, int>> lr; };   // nodes are in-order ranks
  static std::vector<std::vector<T>> trees;
  while ((int)trees.size() <= n) {
    int k = trees.size(); trees.push_back({}); memo.push_back({});
    if (k == 0) { trees[0].push_back({0, -1, {}}); memo[0].push_back({0, 0, {}}); continue; }
    for (int l = 0; l < k; l++) for (auto &a : trees[l]) for (auto &b : trees[k - 1 - l]) {
      if (std::abs(a.h - b.h) > 1) continue;
      T t; t.h = 1 + std::max(a.h, b.h); t.root = l; t.lr.assign(k, {-1, -1});
      for (int i = 0; i < l; i++) t.lr[i] = a.lr[i];
      for (int i = 0; i < k - 1 - l; i++) { auto p = b.lr[i]; if (p.first >= 0) p.first += l + 1; if (p.second >= 0) p.second += l + 1; t.lr[l + 1 + i] = p; }
      t.lr[l] = {a.root, b.root < 0 ? -1 : b.root + l + 1};
      Shape s; s.n = k; s.h = t.h; Rec::level(t.lr, t.root, s.level_order);
      trees[k].push_back(t); memo[k].push_back(s);
    }
  }
  return memo[n];
}
// the sparsest AVL tree of height h (Fibonacci tree), deeper side chosen by `lean` (0 left, 1 right, 2 alternating): ranks in level order
inline std::vector<int> fibonacci_tree(int h, int lean) {
  struct Job { int h, base, lean; }; std::vector<int> size(h + 2, 0), out; for (int i = 1; i <= h; i++) size[i] = i == 1 ? 1 : size[i - 1] + size[i - 2] + 1;
  std::vector<Job> q{{h, 0, lean == 2 ? 0 : lean}}; for (size_t i = 0; i < q.size(); i++) { Job j = q[i]; if (j.h <= 0) continue; int hl = j.lean ? j.h - 2 : j.h - 1, hr = j.lean ? j.h - 1 : j.h - 2, l = hl > 0 ? size[hl] : 0, next = lean == 2 ? !j.lean : j.lean; out.push_back(j.base + l); if (hl > 0) q.push_back({hl, j.base, next}); if (hr > 0) q.push_back({hr, j.base + l + 1, next}); }
  return out;
}
// height of the tallest AVL tree with n nodes
inline int avl_max_height(size_t n) {
  size_t a = 0, b = 1; int h = 0;            // a = N(h), b = N(h+1)
  while (b <= n) { size_t c = a + b + 1; a = b; b = c; h++; }
  return h;
}
