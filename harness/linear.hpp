// design matrix and reference steps of the linear-model harnesses
#pragma once
static Mat design(const Mat& X, bool intercept) { Mat D(X.rows(), X.cols() + (intercept ? 1 : 0)); for (int i = 0; i < X.rows(); ++i) { for (int j = 0; j < X.cols(); ++j) D(i, j) = X(i, j); if (intercept) D(i, X.cols()) = double(1); } return D; }
static double dotRow(const Mat& D, int i, const Vec& w) { double s(0); for (int j = 0; j < D.cols(); ++j) s += D(i, j) * w(j); return s; }
static double clipG(const double& g) { return vmax(vmin(g, double(1e10)), double(-1e10)); }
// fixed design points, the label side stays arbitrary
static Mat fixedX(int n, int d) { static const int v[6][3] = {{1, 2, -1}, {3, -1, 2}, {-2, 1, 1}, {0, 3, 4}, {2, 2, -3}, {-1, 0, 2}}; Mat X(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) X(i, j) = double(v[i][j]); return X; }
