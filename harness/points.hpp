// distances written out, and the fixed point sets of the KD-tree harnesses
#pragma once
static double dist(const Mat& a, int i, const Mat& b, int j, int ord) {
  double s(0);
  for (int k = 0; k < a.cols(); ++k) { double d = a(i, k) - b(j, k); if (ord == 2) s += d * d; else if (ord == 1) s += vabs(d); else s = vmax(s, vabs(d)); }
  return ord == 2 ? vf::rsqrt_(s) : s;
}
static const char* mname(int ord) { return ord == 1 ? "manhattan" : ord == 2 ? "euclidean" : "chebyshev"; }
// point sets in the plane: spread along axis 0, along axis 1, along both, with duplicates, and collinear
static Mat grid(int which, int only = -1) {
  static const std::vector<std::vector<std::array<int, 2>>> S = {
    {{0, 0}, {6, 1}, {2, 5}, {7, 4}, {4, 2}}, {{0, -6}, {1, 7}, {3, 0}, {2, 3}, {1, -2}}, {{0, 0}, {0, 8}, {5, 8}, {5, 0}, {2, 4}, {3, 7}},
    {{1, 1}, {1, 1}, {1, 5}, {3, 1}}, {{-4, -4}, {-2, -2}, {0, 0}, {3, 3}, {5, 5}}, {{0, 7}, {1, -7}, {4, 0}, {-5, 2}, {6, 5}, {-3, -4}, {2, 1}} };
  auto& v = S[only >= 0 ? only : vf::choose("pointset", which)]; Mat X(v.size(), 2); for (size_t i = 0; i < v.size(); ++i) for (int j = 0; j < 2; ++j) X(i, j) = double(v[i][j]); return X;
}
// n points, first coordinate fixed and narrow, second arbitrary
static Mat stripe(int n) { Mat X(n, 2); for (int i = 0; i < n; ++i) { X(i, 0) = double(i % 2); X(i, 1) = vf::real("x" + std::to_string(i), -8, 8); } return X; }
