From 9916c9413c4724da55df7db92728276f4dab8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 01/20] fix: naive Bayes keeps its old fit when training fails

---
 src/learning/naive_bayes.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index a36a712..9c435ac 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -107,8 +107,13 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
-        self.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
-        self.update_params(inputs, targets)
+        // Fit a new model, so that a failure leaves this one as it was
+        let mut fit = NaiveBayes::<T>::new();
+        fit.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
+        fit.update_params(inputs, targets)?;
+
+        *self = fit;
+        Ok(())
     }
 
     /// Predict output from inputs.
-- 
2.43.0


From 7244e67c06028d68ad7da0199668cb96eb5b86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 02/20] fix: DBSCAN forgets the data of an earlier predictive
 training

---
 src/learning/dbscan.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index e7bbdee..0fc31ad 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -96,9 +96,12 @@ impl UnSupModel<Matrix<f64>, Vector<Option<usize>>> for DBSCAN {
             }
         }
 
-        if self.predictive {
-            self._cluster_data = Some(inputs.clone());
-        }
+        self._cluster_data = if self.predictive {
+            Some(inputs.clone())
+        } else {
+            // Data of an earlier training does not go with these clusters
+            None
+        };
 
         Ok(())
     }
-- 
2.43.0


From c0156fc1f5dc35cf040b227ba9e6afa2dae799b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 03/20] fix: kd-tree and ball tree building ends on equal rows

---
 src/learning/knn/binary_tree.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index c9f3618..be1bbc0 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -273,9 +273,11 @@ impl<B: BinarySplit> BinaryTree<B> {
     /// - remains for right node
     /// - updated max for left node
     /// - updated min for right node
+    ///
+    /// Returns `None` if no split can separate the rows.
     fn select_split(&self, data: &Matrix<f64>, mut remains: Vec<usize>,
                     mut dmin: Vector<f64>, mut dmax: Vector<f64>)
-        -> (usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>){
+        -> Option<(usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>)> {
 
         // avoid recursive call
         loop {
@@ -307,10 +309,16 @@ impl<B: BinarySplit> BinaryTree<B> {
 
             if l_remains.is_empty() {
                 // all rows are in r_remains. re-split r_remains
+                if !(split > dmin[dim]) {
+                    return None;
+                }
                 remains = r_remains;
                 dmin[dim] = split;
             } else if r_remains.is_empty() {
                 // all rows are in l_remains. re-split l_remains
+                if !(split < dmax[dim]) {
+                    return None;
+                }
                 remains = l_remains;
                 dmax[dim] = split;
             } else {
@@ -323,7 +331,7 @@ impl<B: BinarySplit> BinaryTree<B> {
                 let mut r_min = dmin.clone();
                 r_min[dim] = split;
 
-                return (dim, split, l_remains, r_remains, l_max, r_min);
+                return Some((dim, split, l_remains, r_remains, l_max, r_min));
             }
         };
     }
@@ -337,12 +345,15 @@ impl<B: BinarySplit> BinaryTree<B> {
         } else {
 
             // ToDo: avoid this clone
-            let (dim, split, l_remains, r_remains, l_max, r_min) =
-                self.select_split(data, remains.clone(), dmin.clone(), dmax.clone());
-
-            let l_node = self.split(data, l_remains, dmin.clone(), l_max);
-            let g_node = self.split(data, r_remains, r_min, dmax.clone());
-            B::build(data, remains, dim, split, dmin, dmax, l_node, g_node)
+            match self.select_split(data, remains.clone(), dmin.clone(), dmax.clone()) {
+                Some((dim, split, l_remains, r_remains, l_max, r_min)) => {
+                    let l_node = self.split(data, l_remains, dmin.clone(), l_max);
+                    let g_node = self.split(data, r_remains, r_min, dmax.clone());
+                    B::build(data, remains, dim, split, dmin, dmax, l_node, g_node)
+                },
+                // more equal rows than a leaf should contain
+                None => Node::Leaf(Leaf::new(remains))
+            }
         }
     }
 
-- 
2.43.0


From 2eecb2d8871ef989ab9c12c4d92dab3ca8a2096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 04/20] fix: report a singular GMM covariance as an error, not
 a panic

---
 src/learning/gmm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 4c7e713..630e42c 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -261,7 +261,7 @@ impl GaussianMixtureModel {
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
-                let lup = PartialPivLu::decompose(cov.clone()).expect("Covariance could not be lup decomposed");
+                let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
                 let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
-- 
2.43.0


From f3cb4a5a9af00fc19dd930236b00ec0780cf699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 05/20] fix: GMM training starts afresh and keeps the old fit
 on failure

---
 src/learning/gmm.rs | 46 +++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 630e42c..dee78b1 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -58,6 +58,8 @@ pub enum CovOption {
 #[derive(Debug)]
 pub struct GaussianMixtureModel {
     comp_count: usize,
+    // Mixture weights every training starts from
+    init_weights: Vector<f64>,
     mix_weights: Vector<f64>,
     model_means: Option<Matrix<f64>>,
     model_covars: Option<Vec<Matrix<f64>>>,
@@ -70,6 +72,36 @@ pub struct GaussianMixtureModel {
 impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
     /// Train the model using inputs.
     fn train(&mut self, inputs: &Matrix<f64>) -> LearningResult<()> {
+        // Fit a new model, so that a failure leaves this one as it was
+        let mut fit = GaussianMixtureModel {
+            comp_count: self.comp_count,
+            init_weights: self.init_weights.clone(),
+            mix_weights: self.init_weights.clone(),
+            model_means: None,
+            model_covars: None,
+            log_lik: 0f64,
+            max_iters: self.max_iters,
+            cov_option: self.cov_option,
+        };
+        fit.fit(inputs)?;
+
+        *self = fit;
+        Ok(())
+    }
+
+    /// Predict output from inputs.
+    fn predict(&self, inputs: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
+        if let (&Some(_), &Some(_)) = (&self.model_means, &self.model_covars) {
+            Ok(self.membership_weights(inputs)?.0)
+        } else {
+            Err(Error::new_untrained())
+        }
+
+    }
+}
+
+impl GaussianMixtureModel {
+    fn fit(&mut self, inputs: &Matrix<f64>) -> LearningResult<()> {
         let reg_value = if inputs.rows() > 1 {
             1f64 / (inputs.rows() - 1) as f64
         } else {
@@ -105,18 +137,6 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
         Ok(())
     }
 
-    /// Predict output from inputs.
-    fn predict(&self, inputs: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
-        if let (&Some(_), &Some(_)) = (&self.model_means, &self.model_covars) {
-            Ok(self.membership_weights(inputs)?.0)
-        } else {
-            Err(Error::new_untrained())
-        }
-
-    }
-}
-
-impl GaussianMixtureModel {
     /// Constructs a new Gaussian Mixture Model
     ///
     /// Defaults to 100 maximum iterations and
@@ -131,6 +151,7 @@ impl GaussianMixtureModel {
     pub fn new(k: usize) -> GaussianMixtureModel {
         GaussianMixtureModel {
             comp_count: k,
+            init_weights: Vector::ones(k) / (k as f64),
             mix_weights: Vector::ones(k) / (k as f64),
             model_means: None,
             model_covars: None,
@@ -173,6 +194,7 @@ impl GaussianMixtureModel {
 
             Ok(GaussianMixtureModel {
                 comp_count: k,
+                init_weights: normalized_weights.clone(),
                 mix_weights: normalized_weights,
                 model_means: None,
                 model_covars: None,
-- 
2.43.0


From 89b18c9d38fa129c317b7760479f775946cfcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 06/20] fix: PCA keeps its old fit when training fails and
 forgets it when retrained

---
 src/learning/pca.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 743b9b7..14c22ca 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -173,20 +173,22 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             }
         }
 
-        let data = if self.center == true {
+        let (data, centers) = if self.center == true {
             let centers = inputs.mean(Axes::Row);
             let m = unsafe { centering(inputs, &centers) };
-            self.centers = Some(centers);
-            m
+            (m, Some(centers))
         } else {
-            inputs.clone()
+            (inputs.clone(), None)
         };
-        let (_, _, mut v) = data.svd().unwrap();
-        if inputs.cols() > inputs.rows() {
+        let (_, _, mut v) = data.svd().map_err(Error::from)?;
+        let inv = inputs.cols() > inputs.rows();
+        if inv {
             v = v.transpose();
-            self.inv = true;
         }
 
+        // Nothing can fail from here on
+        self.centers = centers;
+        self.inv = inv;
         self.components = match self.n {
             Some(c) => {
                 let slicer: Vec<usize> = (0..c).collect();
-- 
2.43.0


From cf1053949fbc45e918b1160551a439fe8bdc6952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 07/20] fix: PCA selects components of wide data by row

---
 src/learning/pca.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 14c22ca..231af1b 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -190,6 +190,11 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
         self.centers = centers;
         self.inv = inv;
         self.components = match self.n {
+            Some(c) if inv => {
+                // Components are in rows, of which there may be less than c
+                let slicer: Vec<usize> = (0..c).take(v.rows()).collect();
+                Some(v.select_rows(&slicer))
+            },
             Some(c) => {
                 let slicer: Vec<usize> = (0..c).collect();
                 Some(v.select_cols(&slicer))
-- 
2.43.0


From 24a090c03529413e89d3ad0064adbcac1add410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:59 +0000
Subject: [PATCH 08/20] fix: k-means keeps the centroid of an empty cluster
 instead of NaN

---
 src/learning/k_means.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 398aae6..3c54232 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -218,9 +218,14 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
             row_indexes.get_mut(c as usize).map(|v| v.push(i));
         }
 
-        for vec_i in row_indexes {
-            let mat_i = inputs.select_rows(&vec_i);
-            new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+        for (k, vec_i) in row_indexes.into_iter().enumerate() {
+            if let (true, &Some(ref centroids)) = (vec_i.is_empty(), &self.centroids) {
+                // There is no mean to move to, so the centroid stays
+                new_centroids.extend_from_slice(centroids.row(k).raw_slice());
+            } else {
+                let mat_i = inputs.select_rows(&vec_i);
+                new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+            }
         }
 
         self.centroids = Some(Matrix::new(self.k, inputs.cols(), new_centroids));
-- 
2.43.0


From 7ecbdc96af2a73e904f61647f11c026528c85bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:59 +0000
Subject: [PATCH 09/20] fix: k-means++ initialization survives rounding in its
 sampling

---
 src/learning/k_means.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 3c54232..d63a9fb 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -382,5 +382,7 @@ fn sample_discretely(unnorm_dist: &Vector<f64>) -> usize {
         }
     }
 
-    panic!("No random value was sampled! There may be more clusters than unique data points.");
+    // Rounding can leave the running sum just short of the drawn value
+    unnorm_dist.data().iter().rposition(|p| *p > 0.0)
+        .expect("No random value was sampled! There may be more clusters than unique data points.")
 }
-- 
2.43.0


From a204689fd4cddb9c62234e94cd2b8aac4f6f692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:59 +0000
Subject: [PATCH 10/20] fix: Forgy initialization rejects too few rows instead
 of looping forever

---
 src/learning/k_means.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index d63a9fb..63dea77 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -281,6 +281,11 @@ pub struct Forgy;
 
 impl Initializer for Forgy {
     fn init_centroids(&self, k: usize, inputs: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
+        if k > inputs.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Can't choose more initial centroids than there are data points."));
+        }
+
         let mut random_choices = Vec::with_capacity(k);
         let mut rng = thread_rng();
         while random_choices.len() < k {
-- 
2.43.0


From 9033b20780e29aadf994c774cf33d56d2cf28a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 11/20] fix: a GMM component no row belongs to keeps its mean
 and covariance

---
 src/learning/gmm.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index dee78b1..646276d 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -333,13 +333,27 @@ impl GaussianMixtureModel {
 
         let mut new_means = membership_weights.transpose() * inputs;
 
-        for (mut mean, w) in new_means.row_iter_mut().zip(sum_weights.data().iter()) {
-            *mean /= *w;
+        for (j, mut mean) in new_means.row_iter_mut().enumerate() {
+            if sum_weights[j] > 0f64 {
+                *mean /= sum_weights[j];
+            } else if let Some(ref means) = self.model_means {
+                // No row belongs to this component, so it stays where it was
+                for (new, old) in mean.iter_mut().zip(means.row(j).iter()) {
+                    *new = *old;
+                }
+            }
         }
 
         let mut new_covs = Vec::with_capacity(self.comp_count);
 
         for k in 0..self.comp_count {
+            if sum_weights[k] == 0f64 {
+                if let Some(ref covars) = self.model_covars {
+                    new_covs.push(covars[k].clone());
+                    continue;
+                }
+            }
+
             let mut cov_mat = Matrix::zeros(d, d);
             let new_means_k = MatrixSlice::from_matrix(&new_means, [k, 0], 1, d);
 
-- 
2.43.0


From fecc49bd901b11dc8e73eabb225c2250cd4a5ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 12/20] fix: GMM responsibilities do not underflow far from
 every mean

---
 src/learning/gmm.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 646276d..752b87d 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -31,9 +31,10 @@
 //! println!("{:?}", post_probs.data());
 //! ```
 use linalg::{Matrix, MatrixSlice, Vector, BaseMatrix, BaseMatrixMut, Axes};
-use rulinalg::utils;
 use rulinalg::matrix::decomposition::{PartialPivLu};
 
+use std::f64;
+
 use learning::{LearningResult, UnSupModel};
 use learning::toolkit::rand_utils;
 use learning::error::{Error, ErrorKind};
@@ -278,7 +279,7 @@ impl GaussianMixtureModel {
         let mut member_weights_data = Vec::with_capacity(n * self.comp_count);
 
         // We compute the determinants and inverses now
-        let mut cov_sqrt_dets = Vec::with_capacity(self.comp_count);
+        let mut cov_log_dets = Vec::with_capacity(self.comp_count);
         let mut cov_invs = Vec::with_capacity(self.comp_count);
 
         if let Some(ref covars) = self.model_covars {
@@ -288,7 +289,7 @@ impl GaussianMixtureModel {
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
 
-                cov_sqrt_dets.push(covar_det.sqrt());
+                cov_log_dets.push(covar_det.ln());
                 cov_invs.push(covar_inv);
             }
         }
@@ -298,25 +299,28 @@ impl GaussianMixtureModel {
         // Now we compute the membership weights
         if let Some(ref means) = self.model_means {
             for i in 0..n {
-                let mut pdfs = Vec::with_capacity(self.comp_count);
+                let mut log_pdfs = Vec::with_capacity(self.comp_count);
                 let x_i = MatrixSlice::from_matrix(inputs, [i, 0], 1, inputs.cols());
 
                 for j in 0..self.comp_count {
                     let mu_j = MatrixSlice::from_matrix(means, [j, 0], 1, means.cols());
                     let diff = x_i - mu_j;
 
-                    let pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]
-                        .exp() / cov_sqrt_dets[j];
-                    pdfs.push(pdf);
+                    let log_pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]
+                        - cov_log_dets[j] / 2f64;
+                    log_pdfs.push(log_pdf + self.mix_weights[j].ln());
                 }
 
-                let weighted_pdf_sum = utils::dot(&pdfs, self.mix_weights.data());
+                // Scaled by the largest, so that they do not all underflow far from the means
+                let max = log_pdfs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+                let weighted_pdfs = log_pdfs.iter().map(|p| (p - max).exp()).collect::<Vec<f64>>();
+                let weighted_pdf_sum = weighted_pdfs.iter().sum::<f64>();
 
-                for (idx, pdf) in pdfs.iter().enumerate() {
-                    member_weights_data.push(self.mix_weights[idx] * pdf / (weighted_pdf_sum));
+                for pdf in &weighted_pdfs {
+                    member_weights_data.push(pdf / weighted_pdf_sum);
                 }
 
-                log_lik += weighted_pdf_sum.ln();
+                log_lik += max + weighted_pdf_sum.ln();
             }
         }
 
-- 
2.43.0


From e335750e81ff65a74a46053540e5ec55b30d68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 13/20] fix: report a GMM covariance that is not positive
 definite as an error

---
 src/learning/gmm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 752b87d..e83e30a 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -286,6 +286,10 @@ impl GaussianMixtureModel {
             for cov in covars {
                 let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
                 let covar_det = lup.det();
+                if !(covar_det > 0f64) {
+                    return Err(Error::new(ErrorKind::LinearAlgebra,
+                                          "A covariance matrix is not positive definite."));
+                }
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
 
-- 
2.43.0


From 8139d9873423b2e865443a1c28a575b833fb7b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 14/20] fix: GMM regularization is added to the covariance, not
 scaled by the weight

---
 src/learning/gmm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index e83e30a..abddbce 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -371,12 +371,12 @@ impl GaussianMixtureModel {
                 cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);
             }
 
+            cov_mat /= sum_weights[k];
             if let CovOption::Regularized(eps) = self.cov_option {
                 cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
             }
 
-            new_covs.push(cov_mat / sum_weights[k]);
-
+            new_covs.push(cov_mat);
         }
 
         self.model_means = Some(new_means);
-- 
2.43.0


From c1495f69861794a6368f1724c8a5a0faa32aa615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 15/20] fix: min-max scaling rejects empty data and overflowing
 ranges

---
 src/data/transforms/minmax.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/transforms/minmax.rs b/src/data/transforms/minmax.rs
index 2f02e9d..94c2a41 100644
--- a/src/data/transforms/minmax.rs
+++ b/src/data/transforms/minmax.rs
@@ -111,8 +111,12 @@ impl<T: Float> TransformFitter<Matrix<T>, MinMaxScaler<T>> for MinMaxFitter<T> {
         // holds `b`.
         let scales = input_min_max.iter()
             .map(|&(x, y)| {
-                let s = (self.scaled_max - self.scaled_min) / (y - x);
-                if s.is_finite() {
+                let range = y - x;
+                let s = (self.scaled_max - self.scaled_min) / range;
+                if !range.is_finite() {
+                    Err(Error::new(ErrorKind::InvalidData,
+                                   "Data is empty or its range is too large."))
+                } else if s.is_finite() {
                     Ok(s)
                 } else {
                     Err(Error::new(ErrorKind::InvalidData,
-- 
2.43.0


From ac1af8cd33b53176ae38524b5132e216422ba7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 16/20] fix: standardizing rejects constant columns instead of
 giving NaN

---
 src/data/transforms/standardize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/transforms/standardize.rs b/src/data/transforms/standardize.rs
index ee974b7..01cf7f2 100644
--- a/src/data/transforms/standardize.rs
+++ b/src/data/transforms/standardize.rs
@@ -93,6 +93,11 @@ impl<T: Float + FromPrimitive> TransformFitter<Matrix<T>, Standardizer<T>> for S
                 return Err(Error::new(ErrorKind::InvalidData, "Some data point is non-finite."));
             }
 
+            if variance.data().iter().any(|x| !x.is_finite() || *x == T::zero()) {
+                return Err(Error::new(ErrorKind::InvalidData,
+                                      "Constant or overflowing feature columns not supported."));
+            }
+
             Ok(Standardizer {
                 means: mean,
                 variances: variance,
-- 
2.43.0


From 6c58a63e3415ee9a0dd91d011400204374791ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 17/20] fix: DBSCAN expands clusters without recursion, which
 overflowed the stack

---
 src/learning/dbscan.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 0fc31ad..4c5415a 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -182,20 +182,31 @@ impl DBSCAN {
 
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
-        for data_point_idx in &neighbour_pts {
-            let visited = self._visited[*data_point_idx];
-            if !visited {
-                self._visited[*data_point_idx] = true;
-                let data_point_row = unsafe { inputs.row_unchecked(*data_point_idx) };
-                let sub_neighbours = self.region_query(data_point_row, inputs);
-
-                if sub_neighbours.len() >= self.min_points {
-                    self.expand_cluster(inputs, *data_point_idx, sub_neighbours, cluster);
-                }
+        // Points which are still to be visited. Each one is marked as visited
+        // when it is found, so there are never more than there are points.
+        let mut pending = Vec::new();
+        self.mark_unvisited(&neighbour_pts, &mut pending);
+
+        while let Some(data_point_idx) = pending.pop() {
+            let data_point_row = unsafe { inputs.row_unchecked(data_point_idx) };
+            let sub_neighbours = self.region_query(data_point_row, inputs);
+
+            if sub_neighbours.len() >= self.min_points {
+                self.clusters.as_mut().map(|x| x.mut_data()[data_point_idx] = Some(cluster));
+                self.mark_unvisited(&sub_neighbours, &mut pending);
             }
         }
     }
 
+    /// Marks the unvisited points as visited and adds them to the pending ones.
+    fn mark_unvisited(&mut self, points: &[usize], pending: &mut Vec<usize>) {
+        for &point_idx in points {
+            if !self._visited[point_idx] {
+                self._visited[point_idx] = true;
+                pending.push(point_idx);
+            }
+        }
+    }
 
     fn region_query(&self, point: Row<f64>, inputs: &Matrix<f64>) -> Vec<usize> {
         debug_assert!(point.cols() == inputs.cols(),
-- 
2.43.0


From ab725bdf3b834587555091631050506b0f19012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 18/20] fix: SVM training ignored the weights and labels of the
 rows summed in the Pegasos margin test

---
 src/learning/svm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 0ff3f07..00ca91e 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -155,8 +155,10 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
             let i = rng.gen_range(0, n);
             let row_i = full_inputs.select_rows(&[i]);
             let sum = full_inputs.row_iter()
-                .fold(0f64, |sum, row| sum + self.ker.kernel(row_i.data(), row.raw_slice())) *
-                      targets[i] / (self.lambda * (t as f64));
+                .enumerate()
+                .fold(0f64, |sum, (j, row)| {
+                    sum + alpha[j] * targets[j] * self.ker.kernel(row_i.data(), row.raw_slice())
+                }) * targets[i] / (self.lambda * ((t + 1) as f64));
 
             if sum < 1f64 {
                 alpha[i] += 1f64;
-- 
2.43.0


From 12b3a3929193a85d229b0adb91ebf6b7ced69641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 19/20] fix: GLM training iterates from the link of the means,
 with means and linear predictor of one step

The working response mixed the means of one iteration with the linear
predictor of the next and started from the means instead of their link, so
the iterations oscillated or diverged for every link but the identity.
---
 src/learning/glm.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index aa69a7e..de9fbfc 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -98,9 +98,9 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                                   "Training data do not have the same dimensions"));
         }
 
-        // Construct initial estimate for mu
+        // Construct initial estimates for mu and the linear predictor
         let mut mu = Vector::new(self.criterion.initialize_mu(targets.data()));
-        let mut z = mu.clone();
+        let mut fitted = self.criterion.apply_link_func(mu.clone());
         let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
 
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
@@ -113,7 +113,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
             let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
 
             let w = Matrix::from_diag(&w_diag);
-            let y_bar = Vector::new(y_bar_data);
+            let z = Vector::new(y_bar_data) + fitted;
 
             let x_t_w = &x_t * w;
 
@@ -128,10 +128,9 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                 break;
             }
 
-            // Update z and mu
-            let fitted = &full_inputs * &beta;
-            z = y_bar + &fitted;
-            mu = self.criterion.apply_link_inv(fitted);
+            // Update the linear predictor and mu
+            fitted = &full_inputs * &beta;
+            mu = self.criterion.apply_link_inv(fitted.clone());
         }
 
         self.parameters = Some(beta);
@@ -316,13 +315,8 @@ impl Criterion for Bernoulli {
         let mut mu_data = Vec::with_capacity(y.len());
 
         for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
+            // Away from 0 and 1, where the link is infinite
+            mu_data.push((y_val + 0.5) / 2f64);
         }
 
         mu_data
@@ -384,14 +378,9 @@ impl Criterion for Binomial {
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
         let mut mu_data = Vec::with_capacity(y.len());
 
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
+        for (idx, y_val) in y.iter().enumerate() {
+            // Away from 0 and 1, where the link is infinite
+            mu_data.push((self.weights[idx] * y_val + 0.5) / (self.weights[idx] + 1f64));
         }
 
         mu_data
-- 
2.43.0


From 89cf3f814754d6dd89f893cc0283dbbe8f70eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 20/20] fix: GLM training does not take a first estimate near
 zero for convergence

---
 src/learning/glm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index de9fbfc..6e86796 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -108,7 +108,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
         let x_t = full_inputs.transpose();
 
         // Iterate to convergence
-        for _ in 0..8 {
+        for step in 0..8 {
             let w_diag = self.criterion.compute_working_weight(mu.data());
             let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
 
@@ -124,7 +124,8 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
             let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();
             beta = new_beta;
 
-            if diff < 1e-10 {
+            // The first estimate has no earlier one to be compared with
+            if step > 0 && diff < 1e-10 {
                 break;
             }
 
-- 
2.43.0

