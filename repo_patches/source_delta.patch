From 26a8c387a9b7f335f6bcb4fbe2e46f31852d6aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 01/72] fix: argsort(matrix) index vector must stop at n-1
 (LinSpaced(n, 0, n) leaves the range for n <= 2)

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 735fe50..88b4b36 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -218,11 +218,11 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
 
     if (axis == 1) {
         idxvec.resize(1, ncols);
-        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols).transpose();
+        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols - 1).transpose();
     }
     else if (axis == 0) {
         idxvec.resize(nrows, 1);
-        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows);
+        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows - 1);
     }
     else {
         std::ostringstream err_msg;
-- 
2.43.0


From 6bf2a0f77e2fc9190e1e9e1c5ea042e317357f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 02/72] fix: argsort(vector) wrote past the end of an empty
 index vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 88b4b36..fd35575 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -819,7 +819,7 @@ const std::vector<std::size_t> argsort(const std::vector<DataType>& x, bool reve
     }
     
     for (int i = 0; i < combine.size(); ++i) {
-        indices[i] = combine[i].second;
+        indices.push_back(combine[i].second);
     }
 
     return indices;
-- 
2.43.0


From 02ab14a4430a15db01c42e23ac104df55ce4c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 03/72] fix: sortrows comparators fell off the end for equal
 rows (undefined behaviour)

---
 src/core/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index fd35575..9d7f575 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -738,6 +738,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] < v2[index];
             }
         }
+        return false;
     };
     const auto desc = [](const std::vector<DataType>& v1, const std::vector<DataType>& v2) {
         std::size_t index = 0;
@@ -749,6 +750,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] > v2[index];
             }
         }
+        return false;
     };
 
     if (!reverse) {
-- 
2.43.0


From e8ffa6cfc70a92183cecea674e427cc88f12c3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 04/72] fix: is_equal read past the end of a shorter second
 vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 9d7f575..81983c0 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -704,7 +704,7 @@ std::vector<std::vector<DataType>> remove_duplicate_rows(
 */
 template<typename DataType>
 bool is_equal(const std::vector<DataType>& x, const std::vector<DataType>& y) {
-    auto pair = std::mismatch(x.begin(), x.end(), y.begin());
+    auto pair = std::mismatch(x.begin(), x.end(), y.begin(), y.end());
     return (pair.first == x.end() && pair.second == y.end());
 };
 
-- 
2.43.0


From c152ba42859c5abaa45c97f4b53908a415d53104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 05/72] fix: slice of a 2d vector checked the column range
 against the number of rows and missed out-of-range ends

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 81983c0..3de65a3 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -844,14 +844,14 @@ std::vector<std::vector<DataType>> slice(const std::vector<std::vector<DataType>
     std::size_t start_col, 
     std::size_t end_col) {
     
-    if (end_row < start_row || end_row - start_row > x.size() - 1) {
+    if (end_row < start_row || end_row >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Row number error, start_row = " << start_row
                 << ", end_row = " << end_row << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
 
-    if (end_col - start_col < 0 || end_col - start_col > x.size() - 1) {
+    if (end_col < start_col || end_col >= x[0].size()) {
         std::ostringstream err_msg;
         err_msg << "Column number error, start_col = " << start_col
                 << ", end_col = " << end_col << std::endl; 
-- 
2.43.0


From 54dab4bb555d79b4fceddeed0c77d9118aee21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 06/72] fix: slice of a 1d vector copied from end() into a
 vector<int> and missed out-of-range ends

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 3de65a3..db285a4 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -882,7 +882,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t start_index, 
     std::size_t end_index) {
 
-    if (end_index - start_index < 0 || end_index - start_index > x.size() - 1) {
+    if (end_index < start_index || end_index >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Index number error, start_index = " << start_index
                 << ", end_index = " << end_index << std::endl; 
@@ -892,7 +892,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t num_rows = end_index - start_index + 1;
     std::vector<DataType> sub_vec;
     sub_vec.reserve(num_rows);
-    sub_vec = std::vector<int>(x.begin() + start_index, x.end() + end_index + 1);
+    sub_vec = std::vector<DataType>(x.begin() + start_index, x.begin() + end_index + 1);
 
     return sub_vec;
 };
-- 
2.43.0


From 9e8e90febf79f32b12da5c2938989cd357cc9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 07/72] fix: unique returned positions in the sorted copy
 instead of indices of the input array

---
 src/core/common.hpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index db285a4..9011227 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -414,25 +414,15 @@ std::tuple<VecType, VecType> unique(const VecType& x){
     std::vector<DataType> stdvec_index;
     std::vector<DataType> stdvec_value;
 
-    // convert the input vector to std vector
-    std::vector<DataType>  stdvec_x;
+    // first position of every value in the input vector
+    std::map<DataType, std::size_t> hash_map;
     for (std::size_t i = 0; i < x.rows(); i++) {
-        stdvec_x.push_back(x(i, 0));
+        hash_map.insert(std::make_pair(x(i, 0), i));
     }
-
-    std::sort(stdvec_x.begin(), stdvec_x.end());
-    auto first = std::begin(stdvec_x), last = std::end(stdvec_x);
-    std::set<std::size_t> hash_set;
-    std::map<DataType, std::size_t> hash_map;
-    for(std::size_t i = 0; first != last; ++i, ++first){
-        auto iter_pair = hash_map.insert(std::make_pair(*first, i));
-        if(iter_pair.second){
-            stdvec_value.push_back(iter_pair.first->first);
-            hash_set.insert(iter_pair.first->second);
-            hash_set.insert(i);
-        }
+    for (const auto& elem : hash_map) {
+        stdvec_value.push_back(elem.first);
+        stdvec_index.push_back(static_cast<DataType>(elem.second));
     }
-    stdvec_index = {hash_set.begin(), hash_set.end()};
 
     VecType retvec_value = Eigen::Map<VecType>(stdvec_value.data(), stdvec_value.size(), 1);
     VecType retvec_index = Eigen::Map<VecType>(stdvec_index.data(), stdvec_index.size(), 1);
-- 
2.43.0


From 64fb7cd567cd6b986930ebce4e834df458035b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 08/72] fix: HingeLoss::gradient accumulated into an
 uninitialised vector

---
 src/core/loss/hinge_loss.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/loss/hinge_loss.hpp b/src/core/loss/hinge_loss.hpp
index aea213a..649a069 100644
--- a/src/core/loss/hinge_loss.hpp
+++ b/src/core/loss/hinge_loss.hpp
@@ -63,6 +63,7 @@ public:
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
         VecType grad(num_features);
+        grad.setZero();
 
         VecType X_w(num_samples);
         X_w = X * W;
-- 
2.43.0


From 3dd91d5b5da4eb9a96458a610c257bc6aa4e8848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 09/72] fix: SoftmaxLoss regularisation summed all of W'W
 instead of the squared norm its gradient uses

---
 src/core/loss/softmax_loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 1e079ab..ba07838 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -56,7 +56,7 @@ public:
 
         loss /= static_cast<double>(num_samples);
 
-        double reg = (W.transpose() * W).array().sum() / 
+        double reg = W.array().square().sum() / 
             (static_cast<double>(num_samples) * 2.0);
         
         return loss + reg * lambda_;
-- 
2.43.0


From ecda3e5bec4c312297ee4e860a8ba75fbb400f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 10/72] fix: HuberLoss did not compile when used; value and
 gradient follow the documented formula

---
 src/core/loss/huber_loss.hpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/core/loss/huber_loss.hpp b/src/core/loss/huber_loss.hpp
index 8527b9c..55d47e0 100644
--- a/src/core/loss/huber_loss.hpp
+++ b/src/core/loss/huber_loss.hpp
@@ -39,14 +39,14 @@ public:
         X_w = X * W; 
 
         double loss = 0.0;
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            loss = 0.5 * condition;
-        }
-        else {
-            auto tmp = (y - X_w).array() - 0.5 * delta_;
-            auto norm = tmp.array().abs().colwise().sum().maxCoeff();
-            loss = delta_ * static_cast<double>(norm);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            double residual = std::abs(y(i, 0) - X_w(i, 0));
+            if (residual <= delta_) {
+                loss += 0.5 * residual * residual;
+            }
+            else {
+                loss += delta_ * residual - 0.5 * delta_ * delta_;
+            }
         }
 
         // loss = loss / static_cast<double>(num_samples);
@@ -68,21 +68,18 @@ public:
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
         VecType grad(num_features);
+        grad.setZero();
 
         VecType X_w(num_samples);
         X_w = X * W;
 
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            auto tmp = X.transpose() * (X_w - y);
-            grad = tmp.array() / num_samples;
-        }
-        else {
-            // grad = self.delta *np.dot(X.T, np.sign(np.dot(X,self.w) - y))/ y.shape[0]
-            auto tmp = X.transpose() * (X_w - y).array().sign();
-            grad = tmp.array() * (delta_ / num_samples);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            double diff = X_w(i, 0) - y(i, 0);
+            if (std::abs(diff) > delta_) {
+                diff = diff > 0.0 ? delta_ : -delta_;
+            }
+            grad.noalias() += X.row(i).transpose() * diff;
         }
-        
 
         VecType reg(num_features);
         reg = W.array() / static_cast<DataType>(num_samples);
-- 
2.43.0


From d5a1418f1f27aba436d3e072664a29b08f6c3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 11/72] fix: ExponentialDecay grew the learning rate; the
 documented rate is base_lr * exp(-gamma * epoch)

---
 src/core/optimizer/sgd/decay_policies/exponential_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
index 767d0b4..c0f7cdc 100644
--- a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
@@ -29,7 +29,7 @@ public:
      * lr = base_lr * exp(-gamma * epoch)
     */
     double compute(std::size_t epoch) {
-        double lr = base_lr_ * std::exp(gamma_ * static_cast<double>(epoch));
+        double lr = base_lr_ * std::exp(-gamma_ * static_cast<double>(epoch));
         return lr;
     }
 
-- 
2.43.0


From 28e27f9b0b9a9a6b0a83f824ca2e2d2064461523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 12/72] fix: StepDecay started its first decay one epoch early;
 the documented exponent is floor(epoch / step_size)

---
 src/core/optimizer/sgd/decay_policies/step_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/step_decay.hpp b/src/core/optimizer/sgd/decay_policies/step_decay.hpp
index cfddbcc..a4198ad 100644
--- a/src/core/optimizer/sgd/decay_policies/step_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/step_decay.hpp
@@ -33,7 +33,7 @@ public:
      * lr = base_lr * gamma ^ floor(epoch / step_size) 
     */
     double compute(std::size_t epoch) {
-        std::size_t warmup_iters = (1 + epoch) / step_size_;
+        std::size_t warmup_iters = epoch / step_size_;
         double lr = base_lr_ * std::pow(gamma_, warmup_iters);
         return lr;
     }
-- 
2.43.0


From b6249c68eab9fd741ab6df0fa43eb53513e61fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 13/72] fix: momentum updates kept no velocity (always zero);
 Nesterov update did not compile

---
 .../sgd/update_policies/momentum_update.hpp   | 14 +++++++------
 .../nesterov_momentum_update.hpp              | 21 +++++++++----------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/momentum_update.hpp b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
index a33d9d2..3947564 100644
--- a/src/core/optimizer/sgd/update_policies/momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
@@ -13,6 +13,8 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     double mu_;
+    // velocity carried from one update to the next
+    MatType V_;
 
 public:
     MomentumUpdate(const double mu): mu_(mu) {};
@@ -23,12 +25,12 @@ public:
     */
     const MatType update(const MatType& W, 
         const MatType& grad, 
-        const double lr) const{
-        std::size_t num_features = W.rows(), num_classes = W.cols();
-        MatType V(num_features, num_classes);
-        V.setZero();
-        V = V * mu_ + grad * lr;
-        MatType updated_W = W - V;
+        const double lr) {
+        if (V_.rows() != W.rows() || V_.cols() != W.cols()) {
+            V_ = MatType::Zero(W.rows(), W.cols());
+        }
+        V_ = V_ * mu_ + grad * lr;
+        MatType updated_W = W - V_;
         return updated_W;
     };
 
diff --git a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
index 7026a00..7d4156a 100644
--- a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
@@ -13,6 +13,8 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     DataType mu;
+    // velocity carried from one update to the next
+    MatType V_;
 
 public:
     NesterovMomentumUpdate(const DataType mu_): mu(mu_) {};
@@ -21,17 +23,14 @@ public:
     /**
      * SGD with Nesterov Momentum optimization method
     */
-    const MatType update(const MatType& W, const MatType& grad, const double lr) const {
-        std::size_t nrows = W.rows();
-        MatType V(nrows);
-        V.setZero();
-        
-        MatType prev_V(nrows);
-        prev_V = V;
-
-        V = mu * V + static_cast<DataType>(lr) * grad;
-        V = V + mu * (V - prev_V);
-        MatType updated_W = W - V;
+    const MatType update(const MatType& W, const MatType& grad, const double lr) {
+        if (V_.rows() != W.rows() || V_.cols() != W.cols()) {
+            V_ = MatType::Zero(W.rows(), W.cols());
+        }
+        MatType prev_V = V_;
+
+        V_ = mu * prev_V + static_cast<DataType>(lr) * grad;
+        MatType updated_W = W - (V_ + mu * (V_ - prev_V));
         return updated_W;
     };
 
-- 
2.43.0


From 063fddcc33d63385fb5f8b48c85fcdc2f3bcefe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 14/72] fix: SAG averaged its gradient table over the batch
 size instead of the number of stored gradients

---
 src/core/optimizer/sgd/sag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index 5c0e700..d295d5c 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -81,7 +81,7 @@ public:
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
 
                 // update average gradient, then replace with new grad
-                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(this->batch_size_));
+                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(num_batch));
                 grad_history.col(j) = grad;
 
                 // W = W - lr * grad; 
-- 
2.43.0


From ec427bc1379b87353e666359ea56458c57177752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 15/72] fix: LBFGS left the coefficients unset when the initial
 point is already a minimiser

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 5d8a217..0ac5cd6 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -114,6 +114,7 @@ public:
         }
         if (gnorm / xnorm <= this->tol_) {
             std::cout << "ERROR: The initial variables already minimize the objective function" << std::endl;
+            this->opt_x_ = x;
             return ;
         }
 
-- 
2.43.0


From cd059b5d69ee110414895fef492cd12cd3054d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 16/72] fix: LBFGS compared against objective values it never
 stored (past > 1) and divided by zero for past = 0

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 0ac5cd6..8fc2e35 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -162,11 +162,13 @@ public:
             // Convergence test -- objective function value
             // The criterion is given by the following formula:
             // |f(past_x) - f(x)| / max(1, |f(x)|) < delta.
-            if (past_ <= k) {
-                rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
-                if (rate < delta_) {
-                    std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
-                    break;
+            if (past_ > 0) {
+                if (past_ <= k) {
+                    rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
+                    if (rate < delta_) {
+                        std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
+                        break;
+                    }
                 }
                 pfx(k % past_) = fx;
             }
-- 
2.43.0


From 6eec84afb4af6e21265ac6690b4802f40b038d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 17/72] fix: KDTree split the root hyper-rectangle along axis 0
 instead of the partition axis, so queries missed neighbours

---
 src/core/tree/kd_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 0a66e0e..d4975bd 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -118,8 +118,8 @@ protected:
         // define left_hyper_rect and right_hyper_rect
         MatType left_hyper_rect = hyper_rect;
         MatType right_hyper_rect = hyper_rect;
-        left_hyper_rect(1, 0) = partition_val;
-        right_hyper_rect(0, 0) = partition_val;
+        left_hyper_rect(1, partition_axis) = partition_val;
+        right_hyper_rect(0, partition_axis) = partition_val;
 
         KDTreeNode node; //std::make_shared<>();
         node.left_hyper_rect = std::make_shared<MatType>(left_hyper_rect);
-- 
2.43.0


From f89747a9c885b47e9c8ca614297643b7c86b0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 18/72] fix: KDTree radius queries skipped branches whose box
 touches the ball exactly, losing points at distance radius

---
 src/core/tree/kd_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index d4975bd..6dfc43d 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -248,7 +248,7 @@ protected:
         }
 
         double dist = metric::minkowski_distance<RowVecType>(c, centroid, ord_);
-        return (dist < radius) ? true : false;
+        return (dist <= radius) ? true : false;
     }
 
     const std::vector<NNType> compute_distance(const RowVecType& data, 
-- 
2.43.0


From ce95baf88baf4b86b0a085e6bd9bfc1b1673d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 19/72] fix: KDTree::query_radius dropped the entry of a query
 without neighbours, shifting the results of later queries

---
 src/core/tree/kd_tree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 6dfc43d..48ea849 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -432,9 +432,7 @@ public:
         for(std::size_t i = 0; i < num_samples; ++i) {
             std::vector<NNType> nn;
             nn = query_radius_single_data(data.row(i), radius);
-            if (!nn.empty()) {
-                knn.emplace_back(nn);
-            }
+            knn.emplace_back(nn);
         }
         return knn;
     }
-- 
2.43.0


From 054b520133765ff528baa7d506f9a09096661836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 20/72] fix: lasso and ridge regression shared an include
 guard, so including both hid one of them

---
 src/methods/linear_model/lasso_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 5a4e6dc..48b4a41 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -1,5 +1,5 @@
-#ifndef METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
-#define METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
+#ifndef METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
+#define METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
 #include "../../prereqs.hpp"
 #include "../../core.hpp"
 #include "base.hpp"
@@ -96,4 +96,4 @@ public:
 } // namespace openml
 } // namespace regression
 
-#endif /*METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP*/
+#endif /*METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP*/
-- 
2.43.0


From 715016ab03ff8b512ad6551ffbfc7726393ed3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 21/72] fix: LassoRegression optimised on the data without the
 intercept column its weights include

---
 src/methods/linear_model/lasso_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 48b4a41..f991721 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -53,7 +53,7 @@ protected:
                 lambda_, 
                 shuffle_, 
                 verbose_);
-        scd.optimize(X, y);
+        scd.optimize(X_new, y_new);
         this->w_ = scd.get_coef();
     };
 
-- 
2.43.0


From f7a4de42868eb368744bbafed2991e8c532406a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 22/72] fix: Perceptron optimised on the data without the
 intercept column its weights include

---
 src/methods/linear_model/perceptron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index d83adcb..56f6941 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -76,7 +76,7 @@ protected:
                 tol_, 
                 shuffle_, 
                 verbose_);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();
     };
 
-- 
2.43.0


From 38eb96c58d22f9953551398f22ecd3a874f99918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 23/72] fix: Perceptron trained the +-1 hinge loss on 0/1
 labels, so samples of class 0 never contributed

---
 src/methods/linear_model/perceptron.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index 56f6941..00a2ed7 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -44,7 +44,8 @@ protected:
 
         std::size_t num_samples = X.rows(), num_features = X.cols();
         MatType X_new = X;
-        VecType y_new = y;
+        // hinge loss works on labels -1 / +1, predict returns 0 / 1
+        VecType y_new = (y.array() > 0).select(VecType::Ones(y.rows()), -VecType::Ones(y.rows()));
         
         // if intercept term exists, append a colmun into X
         if (this->intercept_) {
-- 
2.43.0


From 40e975ddd112086f949d21879367d4cb860fa1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 24/72] fix: SoftmaxRegression optimised on the data without
 the intercept column its weights include

---
 src/methods/linear_model/softmax_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a2f2a8e..a6bc1ab 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -74,7 +74,7 @@ protected:
                 shuffle_, 
                 verbose_, 
                 true);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();    
     };
 
-- 
2.43.0


From 02c74cc5f46d592bbbc80dc1994bcf9d6507cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 25/72] fix: SoftmaxRegression ignored the fitted bias in its
 decision function

---
 src/methods/linear_model/softmax_regression.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a6bc1ab..bee43aa 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -84,10 +84,8 @@ protected:
         std::size_t num_classes = this->w_.cols();
         MatType boundary(num_samples, num_classes);
         if (this->intercept_) {
-            auto xw = X * this->w_.topRows(num_features);
-            // auto b = this->w_.bottomRows(1).colwise().replicate(num_samples);
-            auto b = this->w_.bottomRows(1);
-            boundary = xw;
+            boundary = X * this->w_.topRows(num_features) + 
+                this->w_.bottomRows(1).colwise().replicate(num_samples);
         }
         else {
             boundary = X * this->w_;
-- 
2.43.0


From df125071e73c5a558083e2ee894578ac533bba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 26/72] fix: get_coef asserted for models with one weight
 column per class

---
 src/methods/linear_model/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/base.hpp b/src/methods/linear_model/base.hpp
index f572e1a..9dd6b91 100644
--- a/src/methods/linear_model/base.hpp
+++ b/src/methods/linear_model/base.hpp
@@ -71,7 +71,7 @@ public:
     ~BaseLinearModel() {};
 
     /**public get_coef interface*/
-    const VecType get_coef() const {
+    const MatType get_coef() const {
         return w_;
     };
 
-- 
2.43.0


From 251fc2dec7d0641d8aefee45b1e1bf5a0b93d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 27/72] fix: LogisticRegression::predict returned the opposite
 class of the one its loss fits

---
 src/methods/linear_model/logistic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 0ff23c2..8bae720 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -274,10 +274,10 @@ public:
         y_pred = math::sigmoid(decision_boundary);
         for(auto& value: y_pred) {
             if (value > 0.5) {
-                value = 0;
+                value = 1;
             }
             else {
-                value = 1;
+                value = 0;
             }
         }
         return y_pred;
-- 
2.43.0


From 779bdb36021b8980dc3a73d15587a4cd2f1ad5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 28/72] fix: LogisticRegression::predict_prob columns were in
 the opposite order of the class labels

---
 src/methods/linear_model/logistic_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 8bae720..171eda8 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -164,7 +164,7 @@ protected:
         y_pred = math::sigmoid(decision_boundary);
 
         MatType prob(num_samples, 2);
-        prob = common::hstack<MatType>(y_pred, ones - y_pred);
+        prob = common::hstack<MatType>(ones - y_pred, y_pred);
 
         return prob;
     }
-- 
2.43.0


From f7e5ee0bad643a3f8387d8dbd40b9bf7924222a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 29/72] fix: softmax along axis 1 rejected a single row, so
 class probabilities of one sample were unavailable

---
 src/core/math/extmath.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 624b341..7ff1eb9 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -234,7 +234,7 @@ MatType row_norms(const MatType& x, bool squared = false) {
 template<typename MatType>
 MatType softmax(const MatType& x, int axis = 0) {
     std::size_t nrows = x.rows(), ncols = x.cols();
-    if (nrows == 1 || ncols == 1) {
+    if ((axis != 1 && nrows == 1) || (axis != 0 && ncols == 1)) {
         throw std::invalid_argument("Input ndarray should be 2 dimension");
     }
 
-- 
2.43.0


From f22127e8973d4b4d2c4c538e45f9fec325c3f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 30/72] fix: LogisticRegression with the lbfgs solver used an
 uninitialised penalty

---
 src/methods/linear_model/logistic_regression.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 171eda8..06d1052 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -240,6 +240,7 @@ public:
         bool shuffle = true, 
         bool verbose = true): 
             BaseLinearModel<DataType>(true), 
+            lambda_(0.0), 
             tol_(tol), 
             ftol_(ftol),
             delta_(delta),
-- 
2.43.0


From 598e6d198bba6322d36497db3fa45fd68342dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 31/72] fix: naive Bayes predict returned the position of the
 class instead of its label

---
 src/methods/naive_bayes/base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index a632017..e69c134 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -103,7 +103,10 @@ public:
         jll = this->joint_log_likelihood(X);
 
         IdxVecType argmax_jll = common::argmax<MatType, VecType, IdxVecType>(jll, 1);
-        VecType y_pred = argmax_jll.template cast<DataType>();
+        VecType y_pred(num_samples);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            y_pred(i) = classes_(argmax_jll(i));
+        }
         return y_pred;
     }
 
-- 
2.43.0


From ba982b8e1fbef2e3b49e77114ea6374b08f87f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 32/72] fix: naive Bayes kept the label counts of earlier fits

---
 src/methods/naive_bayes/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index e69c134..696bf00 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -35,6 +35,7 @@ protected:
     */
     virtual void compute_prior_prob(const VecType& y) {
         std::size_t num_samples = y.rows();
+        label_map_.clear();
         for (std::size_t i = 0; i < num_samples; i++) {
             label_map_[y[i]]++;
         }
-- 
2.43.0


From efbc059cc1c424f2a3f5e35daedbadec1602f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 33/72] fix: GaussianNB added the priors of all classes to
 every class score

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 75471b1..9726d9f 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -50,7 +50,7 @@ protected:
             MatType X_centered_reduced = X_centered.array().rowwise() / var_.row(i).array();
             VecType ll = sum_log_var - X_centered_reduced.array().rowwise().sum() * 0.5;
 
-            jll.col(i) = ll.array() + lp.array();
+            jll.col(i) = ll + lp.col(i);
         }
 
         return jll;
-- 
2.43.0


From 01eff78bcee20e77c9343c01072c913679d24794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 34/72] fix: GaussianNB selected a column past the end of its
 data

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 9726d9f..27f8e00 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -79,7 +79,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             mean.col(idx) = math::mean<MatType>(partial_X_y.leftCols(num_features), 0).transpose();
-- 
2.43.0


From 6603d430c8fbb700739a2840e54a47d9eda6f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 35/72] fix: MultinomialNB selected a column past the end of
 its data

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 818de5c..5001db7 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -44,7 +44,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
-- 
2.43.0


From d82f70a2c78bcf296279fdcc6ea9a68ead4a4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 36/72] fix: MultinomialNB assigned a row of feature counts to
 a column

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 5001db7..e4f1859 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -47,7 +47,7 @@ protected:
             IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
-            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
+            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
             class_count.row(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_));
 
             new_i++;
-- 
2.43.0


From c0d2a7e58904f0854b2418c657e2429247e6a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 37/72] fix: GaussianNB get_mean and get_var asserted for more
 than one class

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 27f8e00..5fd9388 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -119,12 +119,12 @@ public:
     };
 
     /** get the mean attributes */
-    const VecType get_mean() const {
+    const MatType get_mean() const {
         return mean_;
     }
 
     /** get the var attributes */
-    const VecType get_var() const {
+    const MatType get_var() const {
         return var_;
     }
 
-- 
2.43.0


From 6bded6d8e2999d1d842ad4cac56a167dbd20e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 38/72] fix: decision tree proposed thresholds that leave one
 side of the split empty

---
 src/methods/tree/base.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index 33a9266..f1faefa 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -28,8 +28,11 @@ protected:
         
         std::vector<DataType> stdvec_x;
         for (std::size_t i = 1; i < num_samples; ++i) {
-            DataType mean = (sorted_x(i - 1) + sorted_x(i)) / 2;
-            stdvec_x.push_back(mean);
+            // equal neighbours are not separated by any threshold
+            if (sorted_x(i - 1) < sorted_x(i)) {
+                DataType mean = (sorted_x(i - 1) + sorted_x(i)) / 2;
+                stdvec_x.push_back(mean);
+            }
         }
 
         std::sort(stdvec_x.begin(), stdvec_x.end());
-- 
2.43.0


From a9d9c961099d080f0dd367924dbb72dca3d3ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 39/72] fix: decision tree classifier created only one child
 when the other was below min_samples_leaf

---
 src/methods/tree/decision_tree_classifier.hpp | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 07790b6..e0e4dcf 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -197,19 +197,18 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
-        if (left_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> left_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->left_child = left_child;
-            build_tree(left_X, left_y, left_child, cur_depth + 1);
+        // both children must be large enough, otherwise the node stays a leaf
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
         }
 
-        if (right_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> right_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->right_child = right_child;
-            build_tree(right_X, right_y, right_child, cur_depth + 1);
-        }
+        std::shared_ptr<Node> left_child = std::make_shared<Node>();
+        std::shared_ptr<Node> right_child = std::make_shared<Node>();
+        cur_node->is_leaf = false;
+        cur_node->left_child = left_child;
+        cur_node->right_child = right_child;
+        build_tree(left_X, left_y, left_child, cur_depth + 1);
+        build_tree(right_X, right_y, right_child, cur_depth + 1);
 
     }
 
-- 
2.43.0


From 942770a509ad161b16c0301063bfa781e9ddcc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 40/72] fix: decision tree classifier grew one level deeper
 than max_depth

---
 src/methods/tree/decision_tree_classifier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index e0e4dcf..35afe8b 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -161,7 +161,7 @@ protected:
             return ;
         }
 
-        if (cur_depth > max_depth_) {
+        if (cur_depth >= max_depth_) {
             return ;
         }
 
-- 
2.43.0


From a33b00a5bdf63ef9d8fc2e0d34c5d03044c35fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 41/72] fix: decision tree regressor created only one child
 when the other was below min_samples_leaf

---
 src/methods/tree/decision_tree_regressor.hpp | 21 ++++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8e54566..33ad7f2 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -202,19 +202,18 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
-        if (left_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> left_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->left_child = left_child;
-            build_tree(left_X, left_y, left_child, cur_depth + 1);
+        // both children must be large enough, otherwise the node stays a leaf
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
         }
 
-        if (right_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> right_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->right_child = right_child;
-            build_tree(right_X, right_y, right_child, cur_depth + 1);
-        }
+        std::shared_ptr<Node> left_child = std::make_shared<Node>();
+        std::shared_ptr<Node> right_child = std::make_shared<Node>();
+        cur_node->is_leaf = false;
+        cur_node->left_child = left_child;
+        cur_node->right_child = right_child;
+        build_tree(left_X, left_y, left_child, cur_depth + 1);
+        build_tree(right_X, right_y, right_child, cur_depth + 1);
     }
 
 
-- 
2.43.0


From 454cb6fa212ae52c590148c272a7a2a8c40143ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 42/72] fix: decision tree regressor grew one level deeper than
 max_depth

---
 src/methods/tree/decision_tree_regressor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 33ad7f2..58fed7f 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -165,7 +165,7 @@ protected:
             return ;
         }
 
-        if (cur_depth > max_depth_) {
+        if (cur_depth >= max_depth_) {
             return ;
         }
 
-- 
2.43.0


From d9f73a4d310a9fa6667d5fd82fef76630ccbb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 43/72] fix: gini gain of a decision tree split ignored the
 impurity of the node

---
 src/methods/tree/decision_tree_classifier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 35afe8b..2b18194 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -93,7 +93,7 @@ protected:
             double right_gini = math::gini<VecType>(right_y);
             double g = static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * left_gini +
                 static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * right_gini;
-            impurity = 1.0 - g;
+            impurity = math::gini<VecType>(y) - g;
         }
         else if (criterion_ == "entropy") {
             double empirical_ent = math::entropy<VecType>(y);
-- 
2.43.0


From a4952f53036c36e90fc2a9dbc3cd1c969f064078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 44/72] fix: decision tree classifier kept the classes of
 earlier fits

---
 src/methods/tree/decision_tree_classifier.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 2b18194..38f9923 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -262,6 +262,7 @@ public:
         const VecType& y) {
         
         num_classes_ = 0;
+        label_count_.clear();
         std::size_t num_samples = X.rows();
         for (std::size_t i = 0; i < num_samples; ++i) {
             label_count_[y(i)]++;
-- 
2.43.0


From 4a06f1cb58f558048cf3a4068a9711e26b9db618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 45/72] fix: decision tree classifier predicted class indices
 instead of labels

---
 src/methods/tree/decision_tree_classifier.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 38f9923..220a89e 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -300,9 +300,14 @@ public:
         auto y_pred_index = common::argmax<MatType, VecType, IdxVecType>(log_prob, 1);
         VecType y_pred_value(num_samples);
         
+        std::vector<DataType> labels;
+        for (auto& label : label_count_) {
+            labels.push_back(label.first);
+        }
+
         std::size_t i = 0;
         for (auto& index : y_pred_index) {
-            y_pred_value(i) = static_cast<DataType>(index);
+            y_pred_value(i) = labels[index];
             i++;
         }
         return y_pred_value;
-- 
2.43.0


From e0ad7804719f608b4f1dd83ea4184271199dd6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 46/72] fix: squared-error gain weighted the children by counts
 instead of shares

---
 src/methods/tree/decision_tree_regressor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 58fed7f..88d314a 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -87,8 +87,8 @@ protected:
             auto right_var = math::var<MatType>(right_y, -1);
 
             double mse = static_cast<double>(total_var.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value());
+                static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * static_cast<double>(left_var.value()) -
+                    static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * static_cast<double>(right_var.value());
             
             impurity = mse;
         }
-- 
2.43.0


From 0c9a2955dd7d567a9e8014571eef6f8c648fc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 47/72] fix: absolute-error gain subtracted a one-element
 median from a vector

---
 src/methods/tree/decision_tree_regressor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 88d314a..19eefc4 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -98,17 +98,17 @@ protected:
             auto left_median = math::median<MatType, VecType>(left_y, -1);
             auto right_median = math::median<MatType, VecType>(right_y, -1);
 
-            VecType y_bar = y.array() - total_median.array();
-            VecType left_y_bar = left_y.array() - left_median.array();
-            VecType right_y_bar = right_y.array() - right_median.array();
+            VecType y_bar = (y.array() - total_median.value()).abs();
+            VecType left_y_bar = (left_y.array() - left_median.value()).abs();
+            VecType right_y_bar = (right_y.array() - right_median.value()).abs();
 
             auto y_bar_sum = math::sum<MatType>(y_bar, -1);
             auto left_y_bar_sum = math::sum<MatType>(left_y_bar, -1);
             auto right_y_bar_sum = math::sum<MatType>(right_y_bar, -1);
 
-            double mae = static_cast<double>(y_bar_sum.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_y_bar_sum.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_y_bar_sum.value());
+            double mae = (static_cast<double>(y_bar_sum.value()) - 
+                static_cast<double>(left_y_bar_sum.value()) -
+                    static_cast<double>(right_y_bar_sum.value())) / static_cast<double>(num_samples);
 
             impurity = mae;
         }
-- 
2.43.0


From 3b18e408c896027f2a3047c7dcd0b0b8fda776b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 48/72] fix: standard deviation of a regression tree node

---
 src/methods/tree/decision_tree_regressor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 19eefc4..a5df55a 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -130,7 +130,7 @@ protected:
         VecType y_centered = y.array() - y_bar.value();
 
         double stdev_error = std::sqrt(
-            static_cast<double>(y_centered.norm()) / static_cast<double>(num_samples)
+            static_cast<double>(y_centered.squaredNorm()) / static_cast<double>(num_samples)
         );
 
         return std::make_tuple(y_bar.value(), stdev_error); 
-- 
2.43.0


From 9fd50b89eb9d737d4c79e52eedaf939043e7ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:01 +0000
Subject: [PATCH 49/72] fix: KMeans assigned a column to a centroid row

---
 src/methods/cluster/kmeans.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index b15723f..fe02c1b 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -154,7 +154,7 @@ protected:
                 auto diff = mean_c - centroids_.row(c.first);
                 
                 eps += static_cast<double>(diff.norm());
-                centroids_.row(c.first) = mean_c.transpose();
+                centroids_.row(c.first) = mean_c;
             }
             // convergen condition
             if (eps < tol_) {
-- 
2.43.0


From 4f0a259c82336600a0d5768bfcc3890a5e085411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 50/72] fix: Gaussian mixture with tied covariance had one
 log-determinant for all components

---
 src/methods/mixture/gaussian_mixture.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 38af027..7e35e38 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -301,6 +301,10 @@ private:
         MatType C(num_samples, num_components);
         C.fill(v);
 
+        // the components share a single determinant when the covariance is tied
+        if (covariance_type_ == "tied") {
+            log_det = VecType::Constant(num_components, log_det(0)).eval();
+        }
         MatType tmp4(num_samples, num_components);
         tmp4 = common::repeat<MatType>(log_det.transpose(), num_samples, 0);
 
-- 
2.43.0


From 18e4ef5838fc7f2ce50855b9626fa487827a1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 51/72] fix: Gaussian mixture appended precisions of every fit

---
 src/methods/mixture/gaussian_mixture.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 7e35e38..e197b13 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -508,6 +508,7 @@ private:
         means_ = best_means;
         weights_ = best_weights;
 
+        precisions_.clear();
         for (int i = 0; i < precisions_cholesky_.size(); ++i) {
             MatType prec_chol = precisions_cholesky_[i];
             MatType prec(num_features, num_features);
-- 
2.43.0


From 3b3bb8ae956bee771c0991376ad1e68c0f200102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:50 +0000
Subject: [PATCH 52/72] fix: KNearestNeighbors brute force search did not
 compile

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 58c7aae..8707e32 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -29,13 +29,13 @@ private:
     std::unique_ptr<tree::KDTree<DataType>> tree_;
 
 protected:
-    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& samples) {
+    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& sample) {
         
         std::vector<DataType> neighbors;
         std::vector<std::pair<double, DataType>> lookup_dist;
 
-        for (std::size_t i = 0; i < X.row(); ++i) {
-            RowVecType current = X.rows(i);
+        for (std::size_t i = 0; i < X.rows(); ++i) {
+            RowVecType current = X.row(i);
             DataType label = y(i, 0);
             double distance;
             
-- 
2.43.0


From 45d9c21dff220a8c2cd3e26a11aa5e4755685001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:50 +0000
Subject: [PATCH 53/72] fix: KNearestNeighbors took the mode over the queries
 instead of the neighbours

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 8707e32..3c243dc 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -122,7 +122,7 @@ public:
             }
 
             MatType mode, count;
-            std::tie(mode, count) = math::mode<MatType>(pred_indice, 0);
+            std::tie(mode, count) = math::mode<MatType>(pred_indice, 1);
 
             pred_label = mode;
         }
-- 
2.43.0


From 188501b375dc3e569fc6661edf22d6f1741a3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:50 +0000
Subject: [PATCH 54/72] fix: KNearestNeighbors brute force vote never replaced
 its initial count

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 3c243dc..e386d57 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -64,7 +64,7 @@ protected:
         }
         std::pair<DataType, std::size_t> pred_label;
         pred_label.first = -1;
-        pred_label.second = -1;
+        pred_label.second = 0;
         for (auto& kv : frequency) {
             if (kv.second > pred_label.second) {
                 pred_label.second = kv.second;
-- 
2.43.0


From 1a9aa9d4bb05f82c8526d6db7a86a4864cd9d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 55/72] fix: PCA centred new data on its own mean

---
 src/methods/decomposition/pca.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 215b923..f52d5da 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -24,15 +24,18 @@ private:
     // define matrix and vector Eigen type
     using MatType = Eigen::Matrix<DataType, Eigen::Dynamic, Eigen::Dynamic>;
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
+    using RowVecType = Eigen::Matrix<DataType, 1, Eigen::Dynamic>;
     using IdxVecType = Eigen::Vector<Eigen::Index, Eigen::Dynamic>;
 
     std::string solver_;
     double noise_var_;
+    RowVecType mean_;
 
 protected:
     void fit_data(const MatType& X) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
 
+        mean_ = X.colwise().mean();
         MatType centered_X;
         centered_X = math::center<MatType>(X);
         
@@ -73,7 +76,7 @@ protected:
     const MatType transform_data(const MatType& X) const{
         std::size_t num_samples = X.rows();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_;
 
         MatType transformed_X(num_samples, this->num_components_);
         transformed_X = centered_X * this->components_.transpose();
@@ -147,7 +150,7 @@ public:
         std::size_t num_samples = X.rows();
         
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_;
 
         VecType log_like(num_samples);
         log_like = compute_score_samples(centered_X);
-- 
2.43.0


From 44334020216576abb836a964e33d5c6017daf0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 56/72] fix: PCA score and precision needed an earlier
 get_covariance and get_precision

---
 src/methods/decomposition/pca.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index f52d5da..d3dbc3b 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -70,6 +70,9 @@ protected:
         this->components_ = components.topRows(this->num_components_);
         this->explained_var_ = explained_var.topRows(this->num_components_);
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
+
+        compute_data_covariance();
+        compute_precision_matrix();
     }
 
     /** transform the new data */
-- 
2.43.0


From ae6356ede09f442267c224d4abb0eb8e552b6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 57/72] fix: randomized_svd aborted when the sketch was
 narrower than the data

---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 22a4351..a9ede74 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -193,7 +193,7 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
     // compute the SVD on the thin matrix: (k + p) wide
     MatType Uhat, Vt;
     VecType s;
-    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, true);
+    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, false);
     Vt = Vt.transpose().eval();
     B.resize(0, 0);
 
-- 
2.43.0


From 97de9fd8d3bf51ae3dcea5c4944050bdeacb0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 58/72] fix: lu dropped the column permutation of complete
 pivoting and inverted the row permutation

---
 src/core/math/linalg.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index a9ede74..d031572 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -25,9 +25,13 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
 
     std::size_t nrows = x.rows(), ncols = x.cols();
     std::size_t min_size = std::min(nrows, ncols);
-    Eigen::FullPivLU<MatType> lu_decomposition(x);
+    // pad to a square matrix, row pivoting keeps the padding in place
+    std::size_t max_size = std::max(nrows, ncols);
+    MatType padded = MatType::Zero(max_size, max_size);
+    padded.topLeftCorner(nrows, ncols) = x;
+    Eigen::PartialPivLU<MatType> lu_decomposition(padded);
 
-    MatType lu_m = lu_decomposition.matrixLU();
+    MatType lu_m = lu_decomposition.matrixLU().topLeftCorner(nrows, ncols);
     // L is (M, min(M, N))
     MatType L = lu_m.template triangularView<Eigen::UnitLower>().toDenseMatrix();
     L = L.leftCols(min_size).eval();
@@ -36,8 +40,9 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
     MatType U = lu_m.template triangularView<Eigen::Upper>();
     U = U.topRows(min_size).eval();
 
-    MatType P = lu_decomposition.permutationP();
-    // MatType Q = lu_decomposition.permutationQ();
+    // P * X = L * U, hence X = P^T * L * U
+    MatType P = lu_decomposition.permutationP().transpose();
+    P = P.topLeftCorner(nrows, nrows).eval();
     MatType Q;
     if (permute_l) {
         Q = (P * L);
-- 
2.43.0


From 74e41cee8867ba7ba625bd45f2c1d5f64ec2ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 59/72] fix: HashTree repeated the itemsets of earlier
 frequency queries

---
 src/core/tree/hash_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index 87f2b08..a0e19c7 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -111,6 +111,8 @@ public:
         std::vector<std::size_t>& count_list,
         std::vector<std::vector<DataType>>& itemset_list) {
     
+        count_list_.clear();
+        itemset_list_.clear();
         dfs(root_, support);
         count_list = count_list_;
         itemset_list = itemset_list_;
-- 
2.43.0


From f5e3a6cd074572f557e6857f553059fe8560b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 60/72] fix: Apriori threw when no candidate of some length is
 frequent

---
 src/methods/rule_model/apriori.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 1bba590..d99a801 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -161,6 +161,9 @@ protected:
                 curr_frequency.emplace_back(std::make_pair(itemsets_list[i], count_list[i]));
             }
 
+            if (itemsets_list.empty()) {
+                break;
+            }
             all_frequency_.insert(all_frequency_.end(), curr_frequency.begin(), curr_frequency.end());
             prev_frequency = common::sortrows<DataType>(itemsets_list);
 
-- 
2.43.0


From 576ea6f24c41bc3272b9bd91d52de5b90b2cd09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 61/72] fix: Apriori kept the itemsets and rules of earlier
 fits

---
 src/methods/rule_model/apriori.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index d99a801..8ef0474 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -219,6 +219,8 @@ public:
     };
 
     void fit_transform(const std::vector<std::vector<DataType>>& X) {
+        all_frequency_.clear();
+        association_rules_.clear();
         fit_data(X);
         transform_data();        
     }
-- 
2.43.0


From e256a34088a0ce159f20278ef0bb2fdfdf1b60ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 62/72] fix: Apriori compiled for std::size_t items only

---
 src/methods/rule_model/apriori.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 8ef0474..7b5c29c 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -74,7 +74,7 @@ protected:
             }
         }
 
-        preprocessing::TransactionEncoder<std::size_t> transaction_encoder;
+        preprocessing::TransactionEncoder<DataType> transaction_encoder;
         SpMatType sp_mat = transaction_encoder.fit_transform(X);
         std::unordered_map<DataType, std::size_t> all_records;
         for (int i = 0; i < sp_mat.nonZeros(); ++i) {
-- 
2.43.0


From d7845b6fcdeed1a367a8c2a50c9e9182a82baaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 63/72] fix: Apriori undercounted itemsets whose items are not
 met in one common order

---
 src/methods/rule_model/apriori.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 7b5c29c..f178361 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -61,7 +61,14 @@ private:
 
 
 protected:
-    void fit_data(const std::vector<std::vector<DataType>>& X) {    
+    void fit_data(const std::vector<std::vector<DataType>>& transactions) {    
+        // itemsets are joined, counted and compared as ascending sequences
+        std::vector<std::vector<DataType>> X;
+        for (const auto& transaction : transactions) {
+            std::set<DataType> items(transaction.begin(), transaction.end());
+            X.emplace_back(items.begin(), items.end());
+        }
+
         std::size_t support = static_cast<std::size_t>(X.size() * min_support_);
     
         std::vector<DataType> records_order;
@@ -74,6 +81,8 @@ protected:
             }
         }
 
+        std::sort(records_order.begin(), records_order.end());
+
         preprocessing::TransactionEncoder<DataType> transaction_encoder;
         SpMatType sp_mat = transaction_encoder.fit_transform(X);
         std::unordered_map<DataType, std::size_t> all_records;
-- 
2.43.0


From b3c316ee7d654c127ce6039c6ff1934f5d3ba321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:32 +0000
Subject: [PATCH 64/72] fix: loadtxt read out of bounds on blank lines, ragged
 rows and files without data

---
 src/core/data/load.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 372cf24..e954e65 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -31,8 +31,17 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (row.empty()) {
+            continue;
+        }
+        if (!stdmat.empty() && row.size() != stdmat[0].size()) {
+            throw std::runtime_error("Input file has rows of different lengths.");
+        }
         stdmat.push_back(row);
     }
+    if (stdmat.empty()) {
+        throw std::runtime_error("Input file has no data.");
+    }
 
     // conert std 2D vector into eigen matrix
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
@@ -88,8 +97,17 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (row.empty()) {
+            continue;
+        }
+        if (!stdmat.empty() && row.size() != stdmat[0].size()) {
+            throw std::runtime_error("Input file has rows of different lengths.");
+        }
         stdmat.push_back(row);
     }
+    if (stdmat.empty()) {
+        throw std::runtime_error("Input file has no data.");
+    }
 
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
     X.resize(nrows, std::vector<DataType>(ncols - 1));
-- 
2.43.0


From 4050f90b4367c52bd5dcad20f09bd512e10391c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:32 +0000
Subject: [PATCH 65/72] fix: loadtxt wrote out of bounds and appended labels
 when its outputs were not empty

---
 src/core/data/load.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index e954e65..8484d6f 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -110,7 +110,8 @@ void loadtxt(const std::string &fp,
     }
 
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
-    X.resize(nrows, std::vector<DataType>(ncols - 1));
+    X.assign(nrows, std::vector<DataType>(ncols - 1));
+    y.clear();
     for (std::size_t i = 0; i < nrows; ++i) {
         for (std::size_t j = 0; j < ncols - 1; ++j) {
             X[i][j] = stdmat[i][j];
-- 
2.43.0


From 4002dbbf00928d4ca2faf0dfed6b847f9148b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 66/72] fix: log loss was NaN once a probability rounded to 0
 or 1

---
 src/core/loss/log_loss.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/loss/log_loss.hpp b/src/core/loss/log_loss.hpp
index 30dc204..a10d909 100644
--- a/src/core/loss/log_loss.hpp
+++ b/src/core/loss/log_loss.hpp
@@ -36,15 +36,15 @@ public:
         std::size_t num_samples = X.rows();
 
         VecType X_w(num_samples); 
-        VecType y_hat(num_samples); 
         X_w = X * W;
-        y_hat = math::sigmoid<VecType>(X_w);
 
-        VecType tmp1 = static_cast<DataType>(-1) * y.array() * 
-            y_hat.array().log();
-        VecType tmp2 = (static_cast<DataType>(1) - y.array()) * 
-            (static_cast<DataType>(1) - y_hat.array()).log();
-        VecType tmp3 = tmp1 - tmp2;
+        // log(y_hat) = tmp1 - tmp2 and log(1 - y_hat) = log(y_hat) - X_w, 
+        // finite where y_hat itself is rounded to 0 or 1
+        VecType tmp1 = common::fmin<VecType>(X_w, static_cast<DataType>(0));
+        VecType tmp2 = (static_cast<DataType>(1) + 
+            (-X_w.array().abs()).exp()).log();
+        VecType tmp3 = tmp2.array() - tmp1.array() + 
+            (static_cast<DataType>(1) - y.array()) * X_w.array();
         double loss = static_cast<double>(tmp3.array().sum()) /
             static_cast<double>(num_samples);
 
-- 
2.43.0


From 1ab3bec01671bc338581cd5b3a02bd163287bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 67/72] fix: softmax loss lost samples whose scores lie far
 below the largest score of the batch

---
 src/core/loss/softmax_loss.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index ba07838..51001f0 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -40,19 +40,20 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
-        MatType exp_xw = tmp1.array().exp();
+        // the largest score of each row becomes 0, so that no row underflows
+        VecType max_xw = xw.rowwise().maxCoeff();
+        xw.colwise() -= max_xw;
+        MatType exp_xw = xw.array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
 
         std::size_t index;
-        VecType exp_xw_i(num_samples);
+        VecType xw_i(num_samples);
         for (int i = 0; i < num_samples; ++i) {
             index = static_cast<std::size_t>(y(i, 0));
-            exp_xw_i(i, 0) = exp_xw(i, index);
+            xw_i(i, 0) = xw(i, index);
         }
 
-        auto tmp2 = exp_xw_i.array() / sum_exp_xw.array();
-        double loss = -tmp2.array().log().sum();
+        double loss = (sum_exp_xw.array().log() - xw_i.array()).sum();
 
         loss /= static_cast<double>(num_samples);
 
@@ -78,8 +79,10 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
-        MatType exp_xw = tmp1.array().exp();
+        // the largest score of each row becomes 0, so that no row underflows
+        VecType max_xw = xw.rowwise().maxCoeff();
+        xw.colwise() -= max_xw;
+        MatType exp_xw = xw.array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
         MatType normalized_exp_xw = exp_xw.array().colwise() / sum_exp_xw.array();
 
-- 
2.43.0


From b3adc86bb17d5a878187a7fbe12c9b8da84063af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:10 +0000
Subject: [PATCH 68/72] fix: KDTree searched with an uninitialised order when
 given an unknown metric

---
 src/core/tree/kd_tree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 48ea849..5ab0d4e 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -384,6 +384,11 @@ public:
         else if (metric == "chebyshev") {
             ord_ = Eigen::Infinity;
         }
+        else {
+            std::ostringstream err_msg;
+            err_msg << "Only support manhattan, euclidean and chebyshev distance." << std::endl;
+            throw std::invalid_argument(err_msg.str());
+        }
 
         build_tree();
     };
-- 
2.43.0


From 12b3f54f4b75c0379bc417d9348313ca2b599b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:10 +0000
Subject: [PATCH 69/72] fix: KDTree query for more neighbours than points
 reported point 0 repeatedly

---
 src/core/tree/kd_tree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 5ab0d4e..7b1bfa0 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -409,6 +409,13 @@ public:
         const MatType& data, 
         std::size_t k) const {
         
+        if (k > static_cast<std::size_t>(data_.rows())) {
+            std::ostringstream err_msg;
+            err_msg << "Number of neighbors " << k << " is above the number of points " 
+                    << data_.rows() << "." << std::endl;
+            throw std::invalid_argument(err_msg.str());
+        }
+
         std::size_t num_samples = data.rows();
         MatType distances(num_samples, k);
         IdxMatType indices(num_samples, k);
-- 
2.43.0


From 553f926a4f9246732418b3392166eb1ab32675f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 70/72] fix: refuse an axis that does not exist instead of
 running off the end or returning garbage

---
 src/core/common.hpp       |  6 ++++++
 src/core/math/extmath.hpp |  3 +++
 src/core/math/linalg.hpp  |  3 +++
 src/core/math/ops.hpp     | 12 ++++++++++++
 src/core/math/shuffle.hpp |  7 +++++--
 5 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 9011227..d8528a5 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -100,6 +100,9 @@ MatType repeat(const MatType& x,
     else if (axis == 1) {
         retval = x.rowwise().replicate(repeats);
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return retval;
 };
 
@@ -912,6 +915,9 @@ MatType norm(const MatType& x, std::size_t axis, int ord) {
             sq_norm = x.rowwise().template lpNorm<Eigen::Infinity>();
         } 
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return sq_norm;
 };
 
diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 7ff1eb9..7b07f31 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -250,6 +250,9 @@ MatType softmax(const MatType& x, int axis = 0) {
         c.resize(nrows, ncols);
         c.fill(maxval);
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     MatType exp_x = (x - c).array().exp();
 
     if (axis == 0) {
diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index d031572..d2c810c 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -307,6 +307,9 @@ VecType logsumexp(const MatType& x, int axis){
         log_sum_exp(0, 0) = log_sum_exp_val;
         return log_sum_exp;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
diff --git a/src/core/math/ops.hpp b/src/core/math/ops.hpp
index 7aef730..1ee6c51 100644
--- a/src/core/math/ops.hpp
+++ b/src/core/math/ops.hpp
@@ -184,6 +184,9 @@ VecType median(const MatType& x, int axis = 0) {
         }
         return med;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
@@ -243,6 +246,9 @@ VecType norm2(const MatType& x, int axis = 0) {
     else if (axis == 1) {
         return x.rowwise().norm();
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
@@ -278,6 +284,9 @@ MatType cumsum(const MatType& x, int axis = 0) {
         std::partial_sum(flatten_vec.begin(), flatten_vec.end(), sum.begin());
         return sum;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return cum_sum;
 };
 
@@ -337,6 +346,9 @@ std::tuple<MatType, MatType> mode(const MatType& x, int axis = 0) {
             count(i, 0) = max_freqency;
         }
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return std::make_tuple(mode, count);
 };
 
diff --git a/src/core/math/shuffle.hpp b/src/core/math/shuffle.hpp
index 4c9bfd3..6c9794e 100644
--- a/src/core/math/shuffle.hpp
+++ b/src/core/math/shuffle.hpp
@@ -21,9 +21,12 @@ void shuffle_data(const MatType& X,
     if (axis == 0) {
         permut_size = X.cols();
     } 
-    else if (axis = 1) {
+    else if (axis == 1) {
         permut_size = X.rows();
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     // define a index permutation
     Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> index_permut(permut_size);
     index_permut.setIdentity();
@@ -39,7 +42,7 @@ void shuffle_data(const MatType& X,
         // permute columns
         shuffled_X = X * index_permut;
     } 
-    else if (axis = 1) {
+    else if (axis == 1) {
         // permute rows
         shuffled_X = index_permut * X;
     } 
-- 
2.43.0


From 195bcecc318ad107fe69396767ed659bb2d4a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 71/72] fix: refuse an unknown solver, initialisation or
 covariance type instead of fitting with uninitialised data

---
 src/methods/cluster/kmeans.hpp                | 3 +++
 src/methods/decomposition/pca.hpp             | 5 ++++-
 src/methods/decomposition/truncated_svd.hpp   | 3 +++
 src/methods/mixture/gaussian_mixture.hpp      | 6 ++++++
 src/methods/neighbors/k_nearest_neighbors.hpp | 3 +++
 5 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index fe02c1b..30eeb69 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -118,6 +118,9 @@ protected:
         else if (init_ == "kmeans++") {
             centroids_ = kmeans_plusplus(X);
         }
+        else {
+            throw std::invalid_argument("The init must be 'random' or 'kmeans++'");
+        }
     }
     
 
diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index d3dbc3b..ba163f3 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -53,7 +53,10 @@ protected:
 
             explained_var = math::power<VecType>(s, 2.0) / (static_cast<DataType>(num_samples) - 1.);
             components = Vt;
-        };
+        }
+        else {
+            throw std::invalid_argument("The solver must be 'svd'");
+        }
 
         VecType total_var = math::sum<MatType>(explained_var);
         explained_var_ratio = explained_var / total_var.value();
diff --git a/src/methods/decomposition/truncated_svd.hpp b/src/methods/decomposition/truncated_svd.hpp
index ed74eaa..42e552f 100644
--- a/src/methods/decomposition/truncated_svd.hpp
+++ b/src/methods/decomposition/truncated_svd.hpp
@@ -42,6 +42,9 @@ protected:
                 true);
             X_transformed = X * Vt.transpose();
         }
+        else {
+            throw std::invalid_argument("The solver must be 'randomized'");
+        }
 
         // compute variance of each faeture along axis = 0
         double full_var;
diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index e197b13..318fd86 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -247,6 +247,9 @@ private:
         else if (covariance_type == "tied") {
             covariances = estimate_gaussian_covariances_tied(X, resp, means, nk, reg_covar);
         }
+        else {
+            throw std::invalid_argument("The covariance type must be 'full' or 'tied'");
+        }
         
         return std::make_tuple(covariances, means, nk);
     }
@@ -376,6 +379,9 @@ private:
             MatType sum_resp_tmp = common::repeat<MatType>(sum_resp, num_components_, 1);
             resp = resp.array() / sum_resp_tmp.array();
         }
+        else {
+            throw std::invalid_argument("The init params must be 'random'");
+        }
 
         std::vector<MatType> covariances;
         MatType means;
diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index e386d57..1bc7f0d 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -104,6 +104,9 @@ public:
         else if (solver_ == "brute") {
             X_ = X;
         }
+        else {
+            throw std::invalid_argument("The solver must be 'kdtree' or 'brute'");
+        }
         y_ = y;
         
     }
-- 
2.43.0


From 45597f49857666fc670c1b34d170b0fceec8bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:59 +0000
Subject: [PATCH 72/72] fix: refuse a matrix norm of unknown order instead of
 returning an empty result

---
 src/core/common.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index d8528a5..3577951 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -902,7 +902,10 @@ MatType norm(const MatType& x, std::size_t axis, int ord) {
         }
         else if (ord == Eigen::Infinity) {
             sq_norm = x.colwise().template lpNorm<Eigen::Infinity>();
-        }        
+        }
+        else {
+            throw std::invalid_argument("The order must be 1, 2 or Eigen::Infinity.");
+        }
     }
     else if (axis == 1) {
         if (ord == 2) {
@@ -913,7 +916,10 @@ MatType norm(const MatType& x, std::size_t axis, int ord) {
         }
         else if (ord == Eigen::Infinity) {
             sq_norm = x.rowwise().template lpNorm<Eigen::Infinity>();
-        } 
+        }
+        else {
+            throw std::invalid_argument("The order must be 1, 2 or Eigen::Infinity.");
+        }
     }
     else {
         throw std::invalid_argument("Got an invalid axis value.");
-- 
2.43.0

