From 43ed676b561f58935bb83815c49b11b0c76e6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:55 +0000
Subject: [PATCH 01/34] fix: leave stock data untouched when an update is
 rejected

The setters assigned the new value before validating it, so a rejected
update threw but left the invalid value in the market.
---
 src/market_data/stock_data.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index a7775de..d8c751f 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -38,18 +38,15 @@ namespace OptionPricer {
     }
 
     void StockData::setPrice(const double& S) {
-        S_ = S;
-        validate();
+        *this = StockData(S, sigma_, c_); // Validates before anything is overwritten
     }
 
     void StockData::setSigma(const double& sigma) {
-        sigma_ = sigma;
-        validate();
+        *this = StockData(S_, sigma, c_);
     }
 
     void StockData::setCoupon(const std::optional<double>& c) {
-        c_ = c;
-        validate();
+        *this = StockData(S_, sigma_, c);
     }
 
     void StockData::validate() const {
-- 
2.43.0


From 72e36c71e27b36c50a452f8f88063829593a27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 02/34] fix: reject NaN as a stock price, volatility or coupon

Every comparison with NaN is false, so validate() accepted it.
---
 src/market_data/stock_data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index d8c751f..bd00d8b 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -50,14 +50,14 @@ namespace OptionPricer {
     }
 
     void StockData::validate() const {
-        if (S_ <= 0) {
+        if (!(S_ > 0)) { // Written so that NaN is rejected too
             throw std::invalid_argument("Price must be positive.");
         }
-        if (sigma_ < 0) {
+        if (!(sigma_ >= 0)) {
             throw std::invalid_argument("Sigma cannot be negative.");
         }
         // Check if the optional dividend was specified before accessing
-        if (c_.has_value() && (c_.value() < 0 || c_.value() > 1)) {
+        if (c_.has_value() && !(c_.value() >= 0 && c_.value() <= 1)) {
             throw std::invalid_argument("Coupon rate must be between 0 and 1.");
         }
     }
-- 
2.43.0


From 410e65878d1ed39a589e089653ddf54cb4af09fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 03/34] fix: notify observers from a copy of the list

An observer that creates or destroys observers (an option, or itself)
from update() modified the vector that was being iterated.
---
 src/market_data/market_data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index e299158..65d8200 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -33,7 +33,8 @@ namespace OptionPricer {
     }
 
     void MarketData::notifyObserver(const std::string& id) const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // update() may add observers or destroy itself
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 if (obs->getID() == id) {
                     obs->update();
@@ -44,7 +45,8 @@ namespace OptionPricer {
 
     // Overloaded method that notify all observers
     void MarketData::notifyObservers() const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // update() may add observers or destroy itself
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 obs->update();
             }
-- 
2.43.0


From 5f77cc9f4fc57ee06721db8c22d21fd7775a0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 04/34] fix: seed the pseudo-random engine

The engine was always default-seeded: the seed given by the caller, or
drawn from the system, was stored and never used.
---
 include/random/number_generator/pseudo_random_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/random/number_generator/pseudo_random_generator.h b/include/random/number_generator/pseudo_random_generator.h
index 3ffc680..08d4844 100644
--- a/include/random/number_generator/pseudo_random_generator.h
+++ b/include/random/number_generator/pseudo_random_generator.h
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double operator()(Distribution& dist) const override;
 
     private:
-        mutable std::mt19937 generator_; // Mersenne Twister PRNG
+        mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG
     };
 
 }
-- 
2.43.0


From cfd36eaa74c0d864f4b5b5d818e554c9028a5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 05/34] fix: adding a stock again updates it for everyone who
 refers to it

The second addStock() put a new object in the map, so models and stock
handles kept the old one for ever and observers were not told.
---
 include/market_data/market_data.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/market_data/market_data.h b/include/market_data/market_data.h
index 0675bae..2de4d5c 100644
--- a/include/market_data/market_data.h
+++ b/include/market_data/market_data.h
@@ -35,8 +35,14 @@ namespace OptionPricer {
         template<typename... Args>
         void addStock(const std::string& ticker, Args&&... args) {
             // Perfect forwarding C++17 to preserve rvalue/lvalue ness
-            stockDataMap_[ticker] = std::make_shared<StockData>(std::forward<Args>(args)...);
-        } // Potentially need to check if stockDataMap_[ticker] already exists
+            auto stockData = std::make_shared<StockData>(std::forward<Args>(args)...);
+            if (const auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
+                *it->second = *stockData; // Keep the object that models and options already refer to
+                notifyObserver(ticker);
+            } else {
+                stockDataMap_.emplace(ticker, std::move(stockData));
+            }
+        }
 
         // Update & access StockData through the MarketData singleton
         void updateStockPrice(const std::string& ticker, double S);
-- 
2.43.0


From f7dd2b79e14305fbef9d8bbeec6fd8782fbf06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 06/34] fix: variance gamma drift correction follows the
 current volatility

It was computed once in the constructor, so after a volatility update the
model mixed the new volatility with the old correction.
---
 include/model/variance_gamma_model.h | 1 -
 src/model/variance_gamma_model.cpp   | 8 +++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/model/variance_gamma_model.h b/include/model/variance_gamma_model.h
index 5c50ce6..9db0593 100644
--- a/include/model/variance_gamma_model.h
+++ b/include/model/variance_gamma_model.h
@@ -20,7 +20,6 @@ namespace OptionPricer {
     private:
         double nu_;    // Variance rate of the Gamma process
         double theta_; // Drift of the Brownian motion
-        double omega_; // Drift correction term
     };
 
 }
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index a386bd3..932627d 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -16,10 +16,6 @@ namespace OptionPricer {
         if (nu_ <= 0.0) {
             throw std::invalid_argument("nu must be positive");
         }
-
-        // Calculate the omega correction term that makes the actualized stock price a martingale
-        const double sigma = stockData_->getSigma();
-        omega_ = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
@@ -33,6 +29,8 @@ namespace OptionPricer {
         const double sigma = stockData_->getSigma();
         const double r = marketData_->getR();
         const double c = stockData_->getCoupon().value_or(0.0);
+        // Calculate the omega correction term that makes the actualized stock price a martingale
+        const double omega = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
 
@@ -44,7 +42,7 @@ namespace OptionPricer {
             const double g = (*generator_)(gammaDist); // Gamma subordinator
             const double z = (*generator_)(snDist);  // Normal distributed increment
 
-            const double drift = (r - c + omega_) * dt;
+            const double drift = (r - c + omega) * dt;
             const double VG = theta_ * g + sigma * std::sqrt(g) * z;
 
             S *= std::exp(drift + VG);
-- 
2.43.0


From 0739c59147f15ee7f1691c9aa1ba0772af51e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 07/34] fix: solve() called again after a failed last time step
 finishes it

tCurr is advanced before the step is computed, so when the last step threw,
the next call skipped it and returned unfinished prices as the solution.
---
 .../solver/one_factor/base_fdm_solver.cpp                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 99b40c9..2843e15 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -46,7 +46,7 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
-        while(tCurr < tDom_) {
+        while(tPrev < tDom_) { // tPrev only advances once a step is complete
             tCurr = tPrev + dt;
             calculateBoundaryConditions();
             calculateInnerDomain(); // To be overiden in concrete classes
-- 
2.43.0


From b9a7b545ab1c7f23d6e9a1f16089945da0b1d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 08/34] fix: Crank-Nicolson solves its system once it is
 assembled

The system was solved inside the assembly loop, from the first row on, when
the matrix was still singular: with the default matrix solver every solve()
threw.
---
 .../one_factor/crank_nicolson_fdm_solver.cpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index d2ffaa4..10ef7ef 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -89,17 +89,17 @@ namespace OptionPricer::FDM::OneFactor {
             if (j < J_-2) {
                 b[j-1] += gamma * oldPrices[j+1];
             }
+        }
 
-            // Convert triplets to sparse matrices
-            A.setFromTriplets(tripletListA.begin(), tripletListA.end());
+        // Convert triplets to sparse matrices
+        A.setFromTriplets(tripletListA.begin(), tripletListA.end());
 
-            // Solve for the matrix system A * newPrices = b
-            Eigen::VectorXd solution = matrixSolver_->solve(A, b);
+        // Solve for the matrix system A * newPrices = b
+        Eigen::VectorXd solution = matrixSolver_->solve(A, b);
 
-            // Copy the solution to the internal prices
-            for (unsigned long j = 1; j < (J_-1); ++j) {
-                newPrices[j] = solution[j-1];
-            }
+        // Copy the solution to the internal prices
+        for (unsigned long j = 1; j < (J_-1); ++j) {
+            newPrices[j] = solution[j-1];
         }
     }
 
-- 
2.43.0


From 03ef0176d8d0713f7d05f6f2926ad5ac0a53f0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 09/34] fix: a builder's default model belongs to the option
 being built

The default model was stored in the builder, so a second option, on another
stock, was priced with the model of the first one's stock.
---
 .../monte_carlo/builder/mc_builder_american.cpp    |  7 ++++---
 .../monte_carlo/builder/mc_builder_asian.cpp       | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_barrier.cpp     | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_single_path.cpp |  7 ++++---
 .../monte_carlo/builder/mc_lookback_builder.cpp    | 14 ++++++++------
 5 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/solver/monte_carlo/builder/mc_builder_american.cpp b/src/solver/monte_carlo/builder/mc_builder_american.cpp
index c3dd555..efc6f48 100644
--- a/src/solver/monte_carlo/builder/mc_builder_american.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_american.cpp
@@ -28,12 +28,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> AmericanMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // The default depends on the option: never keep it for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel_,
+        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,
                                                   basisFunctionStrategy_, regressionStrategy_);
     }
 
diff --git a/src/solver/monte_carlo/builder/mc_builder_asian.cpp b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
index 4087ed6..b3729d8 100644
--- a/src/solver/monte_carlo/builder/mc_builder_asian.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
@@ -13,12 +13,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> ArithmeticAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for ArithmeticAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // The default depends on the option: never keep it for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel);
     }
 
     // Geometric Asian
@@ -32,12 +33,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> GeometricAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for GeometricAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // The default depends on the option: never keep it for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
index a0cd91a..55ce333 100644
--- a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockInBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockInBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // The default depends on the option: never keep it for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
     // Knock-Out
@@ -33,12 +34,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockOutBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockOutBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // The default depends on the option: never keep it for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
index 7c1cb76..ecb9157 100644
--- a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> MCSinglePathBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // The default depends on the option: never keep it for the next build
+        if (!stockModel) {
+            stockModel = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
index f38412b..878dc3a 100644
--- a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
+++ b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
@@ -15,12 +15,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FloatingStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FloatingStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // The default depends on the option: never keep it for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
     // Fixed Strike
@@ -36,12 +37,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FixedStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FixedStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // The default depends on the option: never keep it for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From a8ccb4ecf0bc2dc8cca6153f1664b6ddeb8b7fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 10/34] fix: discount American cash flows over steps where no
 path is in the money

Such a step was skipped altogether, leaving the later cash flows undiscounted
over it.
---
 src/solver/monte_carlo/mc_american.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index ca479d4..b521196 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -87,6 +87,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor; // Nobody can exercise: every cash flow moves back one step
             }
         }
 
@@ -163,6 +165,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor; // Nobody can exercise: every cash flow moves back one step
             }
         }
 
-- 
2.43.0


From 5b40883d31afdda0782e80376d606a34eea1b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 11/34] fix: uniform draws respect the bounds of the
 distribution

The bounds were stored and validated but never given to the underlying
distribution, which stayed on [0,1).
---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index ebe5c43..0558a0a 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,7 +2,7 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b) {
+    : a_(a), b_(b), uniform_dist_(a_, b_) {
         if (a_ >= b_)
             throw std::invalid_argument("a must lower than b");
     }
-- 
2.43.0


From 1109fd9e8c906e7aa4c2cab05df3ee396b2ee90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 12/34] fix: the Heston model uses the variance discretization
 it is given

The test looked at the moved-from parameter, so the caller's scheme was always
replaced by the default one.
---
 src/model/heston_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 4f1e276..6ec13df 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -27,7 +27,7 @@ namespace OptionPricer {
         */
 
         // Apply default discretization if nullptr is passed
-        if (!varDiscretization) {
+        if (!varDiscretization_) {
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
         }
     }
-- 
2.43.0


From 74b8bd024f72dd6553cd5be7744c5f7aeb6a2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 13/34] fix: start the Faure sequence after the origin

With seed 0, given by the caller or drawn from the system, the first point was
the origin and every draw of it threw.
---
 src/random/number_generator/faure_quasi_random_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random/number_generator/faure_quasi_random_generator.cpp b/src/random/number_generator/faure_quasi_random_generator.cpp
index 0f63a0f..6fca331 100644
--- a/src/random/number_generator/faure_quasi_random_generator.cpp
+++ b/src/random/number_generator/faure_quasi_random_generator.cpp
@@ -4,14 +4,14 @@ namespace OptionPricer {
 
     FaureGenerator::FaureGenerator(const unsigned int &dim)
     : QuasiRandomNumberGenerator(dim), faureQrng_(dim_) {
-        faureQrng_.seed(seed_);
+        faureQrng_.seed(std::max(seed_, 1u)); // Point 0 is the origin, which has no finite quantiles
         faureQrng_.generate(point_.begin(), point_.end()); // Initialize the point
     }
 
     FaureGenerator::FaureGenerator(const unsigned int &dim,
                                    const unsigned int &seed)
     : QuasiRandomNumberGenerator(dim, seed), faureQrng_(dim_) {
-        faureQrng_.seed(seed_);
+        faureQrng_.seed(std::max(seed_, 1u)); // Point 0 is the origin, which has no finite quantiles
         faureQrng_.generate(point_.begin(), point_.end());
     }
 
-- 
2.43.0


From 5c9f529fcf68de6e46e043334f38948981895eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 14/34] fix: Crank-Nicolson includes the boundary values of the
 previous time step

The explicit half of the scheme dropped the left and right boundary values of
the previous step, so the rows next to the boundaries were wrong.
---
 .../solver/one_factor/crank_nicolson_fdm_solver.cpp       | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index 10ef7ef..3bb4e30 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -83,12 +83,8 @@ namespace OptionPricer::FDM::OneFactor {
 
             // Add the explicit part
             b[j-1] += beta * oldPrices[j];
-            if (j > 1) {
-                b[j-1] += alpha * oldPrices[j-1];
-            }
-            if (j < J_-2) {
-                b[j-1] += gamma * oldPrices[j+1];
-            }
+            b[j-1] += alpha * oldPrices[j-1]; // The neighbour may be a boundary point: its value is known too
+            b[j-1] += gamma * oldPrices[j+1];
         }
 
         // Convert triplets to sparse matrices
-- 
2.43.0


From 3493922a2d0e1b4fa7675e2ff987c0802b1950a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:11 +0000
Subject: [PATCH 15/34] fix: finite-difference solvers take exactly N-1 time
 steps

When dt is rounded down (tDom 1 and N 11, say) the accumulated time falls just
short of tDom after N-1 steps and one step beyond maturity was made.
---
 .../solver/one_factor/base_fdm_solver.h                      | 1 +
 .../solver/one_factor/base_fdm_solver.cpp                    | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/solver/finite_difference_method/solver/one_factor/base_fdm_solver.h b/include/solver/finite_difference_method/solver/one_factor/base_fdm_solver.h
index 531f9c9..9cee094 100644
--- a/include/solver/finite_difference_method/solver/one_factor/base_fdm_solver.h
+++ b/include/solver/finite_difference_method/solver/one_factor/base_fdm_solver.h
@@ -42,6 +42,7 @@ namespace OptionPricer::FDM::OneFactor {
 
         // Time−marching
         double tPrev , tCurr ; // Current and previous times
+        unsigned long stepsDone; // Completed time steps, out of N-1
 
         // Storage
         std::vector<double> newPrices;
diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 2843e15..46a1abb 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -12,7 +12,7 @@ namespace OptionPricer::FDM::OneFactor {
                          std::shared_ptr<Interpolation> interpolation)
     : xDom_(xDom), J_(J), tDom_(tDom), N_(N),
     pde_(std::move(pde)), option_(std::move(option)), marketData_(std::move(marketData)),
-      tPrev(0.0), tCurr(0.0), solved(false){
+      tPrev(0.0), tCurr(0.0), stepsDone(0), solved(false){
         calculateStepSizes();
         calculateInitialConditions();
 
@@ -46,12 +46,13 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
-        while(tPrev < tDom_) { // tPrev only advances once a step is complete
+        while(stepsDone < N_-1) { // Comparing times instead would add a step when dt is rounded down
             tCurr = tPrev + dt;
             calculateBoundaryConditions();
             calculateInnerDomain(); // To be overiden in concrete classes
             oldPrices = newPrices;
             tPrev = tCurr;
+            ++stepsDone; // Only advances once a step is complete
         }
         solved = true;
         return newPrices;
-- 
2.43.0


From 05baffaf6c8175d4bb292916be51e651a9041523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 16/34] fix: Merton model compensates its jumps in the drift

---
 src/model/merton_jump_diffusion_model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 2007e55..3734636 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -34,11 +34,13 @@ namespace OptionPricer {
         StandardNormalDistribution snDist;
         PoissonDistribution poissonDist(lambda_ * dt);
         NormalDistribution jumpDist(muJ_, sigmaJ_);
+        // Expected relative size of a jump, removed from the drift so that the actualized stock price is a martingale
+        const double kappaJ = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0;
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
             // Drift Part
-            const double drift = (r - c - 0.5 * sigma*sigma) * dt;
+            const double drift = (r - c - 0.5 * sigma*sigma - lambda_ * kappaJ) * dt;
 
             // Diffusion part: Standard Brownian Motion
             const double z = (*generator_)(snDist);
-- 
2.43.0


From 1df39b25b129fb2865aff03236c1243af361b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 17/34] fix: Bates model compensates its jumps in the drift

---
 src/model/bates_model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 6c41cfd..83756f3 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -43,6 +43,8 @@ namespace OptionPricer {
         StandardNormalDistribution snd;
         PoissonDistribution poissonDist(lambda_ * dt);
         NormalDistribution jumpDist(muJ_, sigmaJ_);
+        // Expected relative size of a jump, removed from the drift so that the actualized stock price is a martingale
+        const double kappaJ = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0;
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
@@ -55,7 +57,7 @@ namespace OptionPricer {
 
             // Update stock price S(t+1) using variance v(t)
             const double VMax = std::max(V, 0.0);
-            const double drift = (r - c - 0.5 * VMax) * dt;
+            const double drift = (r - c - 0.5 * VMax - lambda_ * kappaJ) * dt;
             const double diffusion = sqrt(VMax * dt) * zS;
             S *= exp(drift + diffusion);
 
-- 
2.43.0


From 35ad4d3d9169670746e3b83b21f04fb147457b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 18/34] fix: a jump of the Kou model goes either up or down

---
 src/model/kou_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index f936c74..e127218 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -59,9 +59,10 @@ namespace OptionPricer {
                 if (U < p_) {
                     const double upsideJump = (*generator_)(exponentialDistUp);
                     jumpSize += upsideJump;
+                } else {
+                    const double downsideJump = -(*generator_)(exponentialDistDown);
+                    jumpSize += downsideJump;
                 }
-                const double downsideJump = -(*generator_)(exponentialDistDown);
-                jumpSize += downsideJump;
             }
 
             // Update stock price
-- 
2.43.0


From d64020e74a25ca1e0c47ce244e59925176e33af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 19/34] fix: Kou model refuses eta1 = 1, whose up jumps have no
 finite mean

---
 src/model/kou_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index e127218..2d042c8 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -15,7 +15,7 @@ namespace OptionPricer {
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
         if (p_ < 0 || p_ > 1)
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ < 1)
+        if (eta1_ <= 1)
             throw std::invalid_argument("eta1 must be between larger than 1.");
         if (eta2_ < 0)
             throw std::invalid_argument("eta2 must be between larger than 0.");
-- 
2.43.0


From 4dccd069c3ac298cf7a1953ee4953677983db95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 20/34] fix: variance gamma time change has mean dt and
 variance nu*dt

---
 src/model/variance_gamma_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 932627d..3332a1e 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -35,7 +35,7 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
-        GammaDistribution gammaDist(dt / nu_, nu_);
+        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // shape and rate: mean dt, variance nu*dt
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-- 
2.43.0


From c5fa3dc6fbfc90ad046f1936e60a204cc05912fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 21/34] fix: Black-Scholes boundary values at the solvers' time
 to maturity

---
 .../pde/one_factor/black_scholes_pde.cpp                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 8f29f66..f399bae 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -38,7 +38,8 @@ namespace OptionPricer::PDE::OneFactor {
             return 0.0;
         }
 
-        return payoff->getK();
+        // t is the time to maturity, as in the solvers
+        return payoff->getK() * std::exp(-marketData_->getR() * t);
     }
 
     double BlackScholesPDE::boundaryRight(const double &t, const double &x) const {
@@ -50,8 +51,8 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
-            const double T = option_->getT();
-            return x - K * std::exp(-r * (T - t));
+            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
+            return x * std::exp(-c * t) - K * std::exp(-r * t);
         }
 
         return 0.0;
-- 
2.43.0


From a02d04454bebad50477bcb849cd8b7a743566073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:46 +0000
Subject: [PATCH 22/34] fix: first Laguerre polynomial is 1 - x

---
 src/numerical_analysis/basis_function/laguerre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerical_analysis/basis_function/laguerre.cpp b/src/numerical_analysis/basis_function/laguerre.cpp
index 4ae3af8..92411df 100644
--- a/src/numerical_analysis/basis_function/laguerre.cpp
+++ b/src/numerical_analysis/basis_function/laguerre.cpp
@@ -9,7 +9,7 @@ namespace OptionPricer {
         basis.col(0).setOnes(); // P0(x) = 1
 
         if (numberBasis_ > 1)
-            basis.col(1) = x; // P1(x) = x
+            basis.col(1) = 1.0 - x.array(); // P1(x) = 1 - x
 
         for (int n = 2; n < numberBasis_; ++n) {
             basis.col(n) = ((2 * (n-1) + 1 - x.array()) * basis.col(n-1).array()
-- 
2.43.0


From 32e64caa90613a5db6a8fc385a1eebfcecdbf031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 23/34] fix: refuse options whose maturity or strike is not a
 number

---
 src/option/base_option.cpp                               | 2 +-
 src/payoff/double_strikes/base_payoff_double_strikes.cpp | 4 ++--
 src/payoff/single_strike/base_payoff_single_strike.cpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 8be0461..6c9d7af 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -22,7 +22,7 @@ namespace OptionPricer {
                    const double& T,
                    std::shared_ptr<IMarketData> marketData)
     : MarketDataObserver(ticker), T_(T), marketData_(std::move(marketData)) {
-        if (T < 0) throw std::invalid_argument("Time to expiration (T) must be positive.");
+        if (!(T >= 0)) throw std::invalid_argument("Time to expiration (T) must be positive.");
         // Try to retrieve StockData if not found it throws an exception
         auto stockData = marketData_->getStockData(id_);
         payoff_ = std::move(payoff); // Safely move the payoff
diff --git a/src/payoff/double_strikes/base_payoff_double_strikes.cpp b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
index 45f4f2a..0ae0b9f 100644
--- a/src/payoff/double_strikes/base_payoff_double_strikes.cpp
+++ b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
@@ -6,8 +6,8 @@ namespace OptionPricer {
 
     PayoffDoubleStrikes::PayoffDoubleStrikes(const PayoffType& type, const double& K_L, const double& K_U)
         : Payoff(type), K_L_(K_L), K_U_(K_U) {
-        if (K_L_ < 0) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
-        if (K_U_ < 0) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
+        if (!(K_L_ >= 0)) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
+        if (!(K_U_ >= 0)) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
     }
 
     PayoffDoubleStrikes::~PayoffDoubleStrikes() = default;
diff --git a/src/payoff/single_strike/base_payoff_single_strike.cpp b/src/payoff/single_strike/base_payoff_single_strike.cpp
index 0132f37..9433855 100644
--- a/src/payoff/single_strike/base_payoff_single_strike.cpp
+++ b/src/payoff/single_strike/base_payoff_single_strike.cpp
@@ -5,7 +5,7 @@
 namespace OptionPricer {
 
     PayoffSingleStrike::PayoffSingleStrike(const PayoffType& type, const double& K) : Payoff(type), K_(K) {
-        if (K_ < 0) throw std::invalid_argument("Strike price (K) must be positive.");
+        if (!(K_ >= 0)) throw std::invalid_argument("Strike price (K) must be positive.");
     }
 
     PayoffSingleStrike::~PayoffSingleStrike() = default;
-- 
2.43.0


From 0514fc450912b79a3423e9403457ac8e31e372b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 24/34] fix: validate distribution parameters before using
 them, and refuse not-a-number

---
 src/random/distribution/continuous_uniform_distrib.cpp | 5 +++--
 src/random/distribution/exponential_distr.cpp          | 5 +++--
 src/random/distribution/gamma_distrib.cpp              | 5 +++--
 src/random/distribution/normal_distrib.cpp             | 7 +++++--
 src/random/distribution/poisson_distrib.cpp            | 5 +++--
 5 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index 0558a0a..d14e908 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,9 +2,10 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b), uniform_dist_(a_, b_) {
-        if (a_ >= b_)
+    : a_(a), b_(b) {
+        if (!(a_ < b_)) // Written so that NaN is rejected too
             throw std::invalid_argument("a must lower than b");
+        uniform_dist_ = std::uniform_real_distribution<>(a_, b_);
     }
 
     ContinuousUniformDistribution::~ContinuousUniformDistribution() = default;
diff --git a/src/random/distribution/exponential_distr.cpp b/src/random/distribution/exponential_distr.cpp
index 677baaa..d358a91 100644
--- a/src/random/distribution/exponential_distr.cpp
+++ b/src/random/distribution/exponential_distr.cpp
@@ -3,9 +3,10 @@
 namespace OptionPricer {
 
     ExponentialDistribution::ExponentialDistribution(const double &lambda)
-    : lambda_(lambda), exponential_dist_(lambda_) {
-        if (lambda_ <= 0)
+    : lambda_(lambda) {
+        if (!(lambda_ > 0)) // Written so that NaN is rejected too
             throw std::invalid_argument("lambda must be positive");
+        exponential_dist_ = std::exponential_distribution<>(lambda_);
     }
 
     ExponentialDistribution::~ExponentialDistribution() = default;
diff --git a/src/random/distribution/gamma_distrib.cpp b/src/random/distribution/gamma_distrib.cpp
index e2d871f..f1b776a 100644
--- a/src/random/distribution/gamma_distrib.cpp
+++ b/src/random/distribution/gamma_distrib.cpp
@@ -3,10 +3,11 @@
 namespace OptionPricer {
 
     GammaDistribution::GammaDistribution(const double &alpha, const double &beta)
-    : alpha_(alpha), beta_(beta), gamma_dist_(alpha_, 1.0 / beta_) {
-        if (alpha_ <= 0 || beta_ <= 0) {
+    : alpha_(alpha), beta_(beta) {
+        if (!(alpha_ > 0 && beta_ > 0)) { // Written so that NaN is rejected too
             throw std::invalid_argument("alpha (shape) and beta (rate) parameters must be positive");
         }
+        gamma_dist_ = std::gamma_distribution<>(alpha_, 1.0 / beta_);
     }
 
     GammaDistribution::~GammaDistribution() = default;
diff --git a/src/random/distribution/normal_distrib.cpp b/src/random/distribution/normal_distrib.cpp
index 9828f7e..078eb18 100644
--- a/src/random/distribution/normal_distrib.cpp
+++ b/src/random/distribution/normal_distrib.cpp
@@ -3,9 +3,12 @@
 namespace OptionPricer {
 
     NormalDistribution::NormalDistribution(const double &mu, const double &sigma)
-    : mu_(mu), sigma_(sigma), normal_dist_(mu_, sigma_) {
-        if (sigma_ <= 0)
+    : mu_(mu), sigma_(sigma) {
+        if (!(sigma_ > 0)) // Written so that NaN is rejected too
             throw std::invalid_argument("sigma must be positive");
+        if (std::isnan(mu_))
+            throw std::invalid_argument("mu must be a number");
+        normal_dist_ = std::normal_distribution<>(mu_, sigma_);
     }
 
     NormalDistribution::~NormalDistribution() = default;
diff --git a/src/random/distribution/poisson_distrib.cpp b/src/random/distribution/poisson_distrib.cpp
index 56938b0..7505e70 100644
--- a/src/random/distribution/poisson_distrib.cpp
+++ b/src/random/distribution/poisson_distrib.cpp
@@ -3,10 +3,11 @@
 namespace OptionPricer {
 
     PoissonDistribution::PoissonDistribution(const double& lambda)
-    : lambda_(lambda), poisson_dist_(lambda_) {
-        if (lambda_ <= 0.0) {
+    : lambda_(lambda) {
+        if (!(lambda_ > 0.0)) { // Written so that NaN is rejected too
             throw std::invalid_argument("lambda must be positive");
         }
+        poisson_dist_ = std::poisson_distribution<>(lambda_);
     }
 
     PoissonDistribution::~PoissonDistribution() = default;
-- 
2.43.0


From a86cf7390b86c5103bdccd2f6d6100e7a2d8cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 25/34] fix: refuse number generators of dimension zero

---
 src/random/number_generator/base_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/number_generator/base_generator.cpp b/src/random/number_generator/base_generator.cpp
index 163f81b..6068834 100644
--- a/src/random/number_generator/base_generator.cpp
+++ b/src/random/number_generator/base_generator.cpp
@@ -4,12 +4,14 @@ namespace OptionPricer {
 
     NumberGenerator::NumberGenerator(const unsigned int &dim)
     : dim_(dim) {
+        validateDim();
         std::random_device rd;
         seed_ = rd();
     }
 
     NumberGenerator::NumberGenerator(const unsigned int &dim, const unsigned int& seed)
     : dim_(dim), seed_(seed) {
+        validateDim();
         if (seed_ < 0) {
             throw std::invalid_argument("seed parameter must be a positive integer");
         }
@@ -22,7 +24,7 @@ namespace OptionPricer {
     }
 
     void NumberGenerator::validateDim() const {
-        if (dim_ < 0) {
+        if (dim_ == 0) {
             throw std::invalid_argument("dim must be a positive integer");
         }
     }
-- 
2.43.0


From 8fb7b2d7b823e0fab096c0cea01f2053c9055c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 26/34] fix: refuse model and regression parameters that are
 not a number

---
 src/model/bates_model.cpp                   | 7 +++++--
 src/model/heston_model.cpp                  | 7 +++++--
 src/model/kou_model.cpp                     | 8 +++++---
 src/model/merton_jump_diffusion_model.cpp   | 4 +++-
 src/model/variance_gamma_model.cpp          | 5 ++++-
 src/numerical_analysis/regression/lasso.cpp | 2 +-
 src/numerical_analysis/regression/ridge.cpp | 2 +-
 7 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 83756f3..18b89b4 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -16,12 +16,15 @@ namespace OptionPricer {
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           kappa_(kappa), theta_(theta), sigma_v_(sigma_v), rho_(rho), v0_(v0),
           lambda_(lambda), muJ_(muJ), sigmaJ_(sigmaJ), varDiscretization_(std::move(varDiscretization)) {
-        if (v0_ <= 0.0 || kappa_ <= 0.0 || sigma_v_ <= 0.0 || sigmaJ_ <= 0.0) {
+        if (!(v0_ > 0.0 && kappa_ > 0.0 && sigma_v_ > 0.0 && sigmaJ_ > 0.0)) { // Written so that NaN is rejected too
             throw std::invalid_argument("v0, kappa, sigma_v, and sigmaJ must be positive");
         }
-        if (rho_ < -1.0 || rho_ > 1.0) {
+        if (!(rho_ >= -1.0 && rho_ <= 1.0)) {
             throw std::invalid_argument("rho must be between -1 and 1");
         }
+        if (std::isnan(theta_) || std::isnan(lambda_) || std::isnan(muJ_)) {
+            throw std::invalid_argument("theta, lambda and muJ must be numbers");
+        }
         if (!varDiscretization_)
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
     }
diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 6ec13df..c1269bd 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -13,12 +13,15 @@ namespace OptionPricer {
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           kappa_(kappa), theta_(theta), sigma_v_(sigma_v), rho_(rho), v0_(v0),
           varDiscretization_(std::move(varDiscretization))  {
-        if (rho_ < -1.0 || rho_ > 1.0) {
+        if (!(rho_ >= -1.0 && rho_ <= 1.0)) { // Written so that NaN is rejected too
             throw std::logic_error("Correlation rho must be between [-1,1]");
         }
-        if (v0_ < 0.0 || sigma_v < 0.0) {
+        if (!(v0_ >= 0.0 && sigma_v >= 0.0)) {
             throw std::logic_error("Initial volatility v0 and vol of vol sigma_v must be non-negative");
         }
+        if (std::isnan(kappa_) || std::isnan(theta_)) {
+            throw std::logic_error("kappa and theta must be numbers");
+        }
     /*
         if (2*kappa_*theta_ <= sigma_v_*sigma_v_) {
             throw std::logic_error("Feller's condition not satisfied.\n"
diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index 2d042c8..23511fd 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -13,12 +13,14 @@ namespace OptionPricer {
                        const double &eta1, const double &eta2)
     : StockModel(ticker, std::move(marketData), std::move(generator)),
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
-        if (p_ < 0 || p_ > 1)
+        if (!(p_ >= 0 && p_ <= 1)) // Written so that NaN is rejected too
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ <= 1)
+        if (!(eta1_ > 1))
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ < 0)
+        if (!(eta2_ > 0))
             throw std::invalid_argument("eta2 must be between larger than 0.");
+        if (std::isnan(lambda_))
+            throw std::invalid_argument("lambda must be a number.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
 
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 3734636..262c8a3 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -13,8 +13,10 @@ namespace OptionPricer {
                                                        const double &lambda, const double &muJ, const double &sigmaJ)
         : StockModel(ticker, std::move(marketData), std::move(generator)),
         lambda_(lambda), muJ_(muJ), sigmaJ_(sigmaJ) {
-        if (sigmaJ_ <= 0)
+        if (!(sigmaJ_ > 0)) // Written so that NaN is rejected too
             throw std::invalid_argument("sigmaJ must be positive");
+        if (std::isnan(lambda_) || std::isnan(muJ_))
+            throw std::invalid_argument("lambda and muJ must be numbers");
     }
 
     MertonJumpDiffusionModel::~MertonJumpDiffusionModel() = default;
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 3332a1e..29238cd 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -13,9 +13,12 @@ namespace OptionPricer {
                                            const double &nu, const double &theta)
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           nu_(nu), theta_(theta) {
-        if (nu_ <= 0.0) {
+        if (!(nu_ > 0.0)) { // Written so that NaN is rejected too
             throw std::invalid_argument("nu must be positive");
         }
+        if (std::isnan(theta_)) {
+            throw std::invalid_argument("theta must be a number");
+        }
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
diff --git a/src/numerical_analysis/regression/lasso.cpp b/src/numerical_analysis/regression/lasso.cpp
index 319cc8c..60f62c8 100644
--- a/src/numerical_analysis/regression/lasso.cpp
+++ b/src/numerical_analysis/regression/lasso.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     LassoRegression::LassoRegression(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ < 0) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
+        if (!(lambda_ >= 0)) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
     }
 
     LassoRegression::~LassoRegression() = default;
diff --git a/src/numerical_analysis/regression/ridge.cpp b/src/numerical_analysis/regression/ridge.cpp
index d05ee96..c1b8a26 100644
--- a/src/numerical_analysis/regression/ridge.cpp
+++ b/src/numerical_analysis/regression/ridge.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     RidgeRegression::RidgeRegression(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ < 0) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
+        if (!(lambda_ >= 0)) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
     }
 
     RidgeRegression::~RidgeRegression() = default;
-- 
2.43.0


From 8560d689c4e00f021de92e3dc0dfa1a6cc5ecc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 27/34] fix: variance gamma refuses parameters whose martingale
 correction does not exist

---
 src/model/variance_gamma_model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 29238cd..f2d18fd 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -34,6 +34,9 @@ namespace OptionPricer {
         const double c = stockData_->getCoupon().value_or(0.0);
         // Calculate the omega correction term that makes the actualized stock price a martingale
         const double omega = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
+        if (!std::isfinite(omega)) { // The mean of the exponential does not exist: no drift can compensate it
+            throw std::invalid_argument("The stock price has no finite mean for these parameters");
+        }
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
 
-- 
2.43.0


From ff9de522b220b0ed3f27adc234ff8a91b36e7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 28/34] fix: finite-difference solvers refuse grids without
 inner point or time step

---
 .../solver/one_factor/base_fdm_solver.cpp                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 46a1abb..bcd166e 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -1,6 +1,7 @@
 #include "solver/finite_difference_method/solver/one_factor/base_fdm_solver.h"
 #include "numerical_analysis/interpolation/linear_interpolation.h"
 #include <iostream>
+#include <stdexcept>
 
 namespace OptionPricer::FDM::OneFactor {
 
@@ -13,6 +14,10 @@ namespace OptionPricer::FDM::OneFactor {
     : xDom_(xDom), J_(J), tDom_(tDom), N_(N),
     pde_(std::move(pde)), option_(std::move(option)), marketData_(std::move(marketData)),
       tPrev(0.0), tCurr(0.0), stepsDone(0), solved(false){
+        if (!(xDom_ > 0) || J_ < 3)
+            throw std::invalid_argument("The spatial domain must be positive and have an inner grid point");
+        if (!(tDom_ >= 0) || N_ < 2)
+            throw std::invalid_argument("The temporal domain cannot be negative and must have a time step");
         calculateStepSizes();
         calculateInitialConditions();
 
-- 
2.43.0


From f45358d369425a3ce535ee4f0a1a49b54206558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 29/34] fix: refuse a missing market, model, generator, PDE or
 strategy instead of crashing on it

---
 src/model/base_model.cpp                                   | 4 ++++
 .../solver/one_factor/base_fdm_solver.cpp                  | 2 ++
 src/solver/monte_carlo/base_mc.cpp                         | 7 ++++++-
 src/solver/monte_carlo/mc_american.cpp                     | 6 +++++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/model/base_model.cpp b/src/model/base_model.cpp
index 204383b..a932e65 100644
--- a/src/model/base_model.cpp
+++ b/src/model/base_model.cpp
@@ -1,10 +1,14 @@
 #include "model/base_model.h"
+#include <stdexcept>
 
 namespace OptionPricer {
 
     StockModel::StockModel(const std::string &ticker, std::shared_ptr<IMarketData> marketData,
                            std::shared_ptr<NumberGenerator> generator)
     : ticker_(ticker), marketData_(std::move(marketData)), generator_(std::move(generator)) {
+        if (!marketData_ || !generator_) {
+            throw std::invalid_argument("Market data and a number generator are required");
+        }
         stockData_ = marketData_->getStockData(ticker);
     }
 
diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index bcd166e..cf944d3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -14,6 +14,8 @@ namespace OptionPricer::FDM::OneFactor {
     : xDom_(xDom), J_(J), tDom_(tDom), N_(N),
     pde_(std::move(pde)), option_(std::move(option)), marketData_(std::move(marketData)),
       tPrev(0.0), tCurr(0.0), stepsDone(0), solved(false){
+        if (!pde_ || !option_ || !marketData_)
+            throw std::invalid_argument("A PDE, an option and the market data are required");
         if (!(xDom_ > 0) || J_ < 3)
             throw std::invalid_argument("The spatial domain must be positive and have an inner grid point");
         if (!(tDom_ >= 0) || N_ < 2)
diff --git a/src/solver/monte_carlo/base_mc.cpp b/src/solver/monte_carlo/base_mc.cpp
index a3ea4cf..57307a0 100644
--- a/src/solver/monte_carlo/base_mc.cpp
+++ b/src/solver/monte_carlo/base_mc.cpp
@@ -1,9 +1,14 @@
 #include "solver/monte_carlo/base_mc.h"
+#include <stdexcept>
 
 namespace OptionPricer {
 
     MCPricer::MCPricer(std::shared_ptr<IMarketData> marketData, std::shared_ptr<StockModel> stockModel)
-    : marketData_(std::move(marketData)), stockModel_(std::move(stockModel)) {}
+    : marketData_(std::move(marketData)), stockModel_(std::move(stockModel)) {
+        if (!marketData_ || !stockModel_) {
+            throw std::invalid_argument("Market data and a stock model are required");
+        }
+    }
 
     MCPricer::~MCPricer() = default;
 
diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index b521196..d183198 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -12,7 +12,11 @@ namespace OptionPricer {
                                        std::shared_ptr<Regression> regressionStrategy)
     : MCPricer(std::move(marketData),std::move(stockModel)), option_(std::move(option)),
     basisFunctionStrategy_(std::move(basisFunctionStrategy)),
-    regressionStrategy_(std::move(regressionStrategy)) {}
+    regressionStrategy_(std::move(regressionStrategy)) {
+        if (!basisFunctionStrategy_ || !regressionStrategy_) {
+            throw std::invalid_argument("Basis functions and a regression are required");
+        }
+    }
 
     double AmericanMCPricer::calculatePrice(const unsigned long &N) const {
         if (std::dynamic_pointer_cast<PseudoRandomNumberGenerator>(stockModel_->getGenerator())
-- 
2.43.0


From dc52fc25aaa45eb1e081290921909f564599370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 30/34] fix: a Monte Carlo price over zero paths is refused

---
 include/solver/monte_carlo/base_mc.h      | 1 +
 src/solver/monte_carlo/base_mc.cpp        | 6 ++++++
 src/solver/monte_carlo/mc_american.cpp    | 1 +
 src/solver/monte_carlo/mc_asian.cpp       | 1 +
 src/solver/monte_carlo/mc_barrier.cpp     | 1 +
 src/solver/monte_carlo/mc_lookback.cpp    | 1 +
 src/solver/monte_carlo/mc_single_path.cpp | 1 +
 7 files changed, 12 insertions(+)

diff --git a/include/solver/monte_carlo/base_mc.h b/include/solver/monte_carlo/base_mc.h
index b040f3a..d900044 100644
--- a/include/solver/monte_carlo/base_mc.h
+++ b/include/solver/monte_carlo/base_mc.h
@@ -15,6 +15,7 @@ namespace OptionPricer {
         [[nodiscard]] virtual double calculatePrice(const unsigned long& N) const = 0;
 
     protected:
+        static void validateN(const unsigned long& N); // There is no mean over zero paths
         std::shared_ptr<IMarketData> marketData_;
         std::shared_ptr<StockModel> stockModel_;
     };
diff --git a/src/solver/monte_carlo/base_mc.cpp b/src/solver/monte_carlo/base_mc.cpp
index 57307a0..c13acaf 100644
--- a/src/solver/monte_carlo/base_mc.cpp
+++ b/src/solver/monte_carlo/base_mc.cpp
@@ -12,4 +12,10 @@ namespace OptionPricer {
 
     MCPricer::~MCPricer() = default;
 
+    void MCPricer::validateN(const unsigned long& N) {
+        if (N == 0) {
+            throw std::invalid_argument("The number of paths must be positive");
+        }
+    }
+
 }
diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index d183198..7bddb75 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -19,6 +19,7 @@ namespace OptionPricer {
     }
 
     double AmericanMCPricer::calculatePrice(const unsigned long &N) const {
+        validateN(N);
         if (std::dynamic_pointer_cast<PseudoRandomNumberGenerator>(stockModel_->getGenerator())
             && std::dynamic_pointer_cast<GeometricBrownianMotionModel>(stockModel_)) {
             // Currently not supported for Quasi Random Numbers and other stock models
diff --git a/src/solver/monte_carlo/mc_asian.cpp b/src/solver/monte_carlo/mc_asian.cpp
index 11a4388..82b16fe 100644
--- a/src/solver/monte_carlo/mc_asian.cpp
+++ b/src/solver/monte_carlo/mc_asian.cpp
@@ -10,6 +10,7 @@ namespace OptionPricer {
     std::move(stockModel)), option_(std::move(option)) {}
 
     double AsianMCPricer::calculatePrice(const unsigned long& N) const {
+        validateN(N);
         double sumPayoff = 0.0;
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR() * option_->getT());
diff --git a/src/solver/monte_carlo/mc_barrier.cpp b/src/solver/monte_carlo/mc_barrier.cpp
index c3e96a3..facada0 100644
--- a/src/solver/monte_carlo/mc_barrier.cpp
+++ b/src/solver/monte_carlo/mc_barrier.cpp
@@ -10,6 +10,7 @@ namespace OptionPricer {
       option_(std::move(option)) {}
 
     double BarrierMCPricer::calculatePrice(const unsigned long &N) const {
+        validateN(N);
         double sumPayoff = 0.0;
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR()*option_->getT());
diff --git a/src/solver/monte_carlo/mc_lookback.cpp b/src/solver/monte_carlo/mc_lookback.cpp
index 5dbf946..6026476 100644
--- a/src/solver/monte_carlo/mc_lookback.cpp
+++ b/src/solver/monte_carlo/mc_lookback.cpp
@@ -10,6 +10,7 @@ namespace OptionPricer {
       option_(std::move(option)) {}
 
     double LookbackMCPricer::calculatePrice(const unsigned long &N) const {
+        validateN(N);
         double sumPayoff = 0.0;
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR()*option_->getT());
diff --git a/src/solver/monte_carlo/mc_single_path.cpp b/src/solver/monte_carlo/mc_single_path.cpp
index 2cc6642..19c0dd4 100644
--- a/src/solver/monte_carlo/mc_single_path.cpp
+++ b/src/solver/monte_carlo/mc_single_path.cpp
@@ -10,6 +10,7 @@ namespace OptionPricer {
           option_(std::move(option)) {}
 
     double SinglePathMCPricer::calculatePrice(const unsigned long& N) const {
+        validateN(N);
         double sumPayoff = 0.0;
         const double discountFactor = exp(-marketData_->getR() * option_->getT());
 
-- 
2.43.0


From a0e0dbc46d81902f63ce5b81e05d051ad89ff920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 31/34] fix: Option::getType leaks the name when its string
 cannot be allocated

---
 src/option/base_option.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 6c9d7af..fe17019 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -1,4 +1,6 @@
+#include <cstdlib>
 #include <iostream>
+#include <memory>
 #include <stdexcept>
 #include <typeinfo>
 #include <cxxabi.h>
@@ -77,10 +79,10 @@ namespace OptionPricer {
         // Get the demangled name of the type
         int status;
         const char* mangledName = typeid(*this).name();
-        char* demangledName = abi::__cxa_demangle(mangledName, nullptr, nullptr, &status);
-        std::string typeName = (status == 0) ? demangledName : mangledName;
-        std::free(demangledName);
-        return typeName;
+        // Owned, so that it is freed also when the string cannot be allocated
+        const std::unique_ptr<char, decltype(&std::free)> demangledName(
+            abi::__cxa_demangle(mangledName, nullptr, nullptr, &status), &std::free);
+        return (status == 0) ? demangledName.get() : mangledName;
     }
 
     const Payoff& Option::getPayoff() const {
-- 
2.43.0


From 089da9cd5d455900f883aa02b230b24891006dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 32/34] fix: a quasi-random draw that fails no longer skips a
 coordinate of the sequence

---
 src/random/number_generator/faure_quasi_random_generator.cpp | 5 +++--
 src/random/number_generator/sobol_quasi_random_generator.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/random/number_generator/faure_quasi_random_generator.cpp b/src/random/number_generator/faure_quasi_random_generator.cpp
index 6fca331..b852c53 100644
--- a/src/random/number_generator/faure_quasi_random_generator.cpp
+++ b/src/random/number_generator/faure_quasi_random_generator.cpp
@@ -25,8 +25,9 @@ namespace OptionPricer {
 
         // Normalize and transform using the inverse CDF
         const double uniform_value = point_[step_] / static_cast<double>(boost::random::faure::max());
-        ++step_;
-        return dist.inv_cdf(uniform_value);
+        const double draw = dist.inv_cdf(uniform_value);
+        ++step_; // Only a draw that succeeds uses up its coordinate
+        return draw;
     }
 
 }
diff --git a/src/random/number_generator/sobol_quasi_random_generator.cpp b/src/random/number_generator/sobol_quasi_random_generator.cpp
index aa0644b..d1d01bd 100644
--- a/src/random/number_generator/sobol_quasi_random_generator.cpp
+++ b/src/random/number_generator/sobol_quasi_random_generator.cpp
@@ -25,8 +25,9 @@ namespace OptionPricer {
 
         // Normalize and transform using Moro's inversion
         const double uniformValue = point_[step_] / static_cast<double>(boost::random::sobol::max());
-        ++step_;  // Increment step after use
-        return dist.inv_cdf(uniformValue);
+        const double draw = dist.inv_cdf(uniformValue);
+        ++step_;  // Increment step after use: only a draw that succeeds uses up its coordinate
+        return draw;
     }
 
 }
-- 
2.43.0


From b9b2aef03b8ed9c33659835ed99401cdefc65f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 33/34] fix: models price options of maturity zero instead of
 refusing them or giving not-a-number

---
 src/model/bates_model.cpp                 | 3 +++
 src/model/gbm_model.cpp                   | 3 +++
 src/model/kou_model.cpp                   | 3 +++
 src/model/merton_jump_diffusion_model.cpp | 3 +++
 src/model/variance_gamma_model.cpp        | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 18b89b4..4a531e2 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -42,6 +42,9 @@ namespace OptionPricer {
         const double c = stockData_->getCoupon().value_or(0.0);
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
+        if (dt == 0.0) {
+            return std::vector<double>(steps, S); // No time: the distributions below would have no spread
+        }
 
         StandardNormalDistribution snd;
         PoissonDistribution poissonDist(lambda_ * dt);
diff --git a/src/model/gbm_model.cpp b/src/model/gbm_model.cpp
index cf295f5..dd75abc 100644
--- a/src/model/gbm_model.cpp
+++ b/src/model/gbm_model.cpp
@@ -37,6 +37,9 @@ namespace OptionPricer {
                                                                const double& t_jp1) const {
         const double sigma = stockData_->getSigma();
         const double S = stockData_->getPrice();
+        if (t_jp1 == 0.0) {
+            return S; // No time: the bridge has no length
+        }
         const double X_next = log(S_next / S);
 
         StandardNormalDistribution snd;
diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index 23511fd..7f409db 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -37,6 +37,9 @@ namespace OptionPricer {
         const double c = stockData_->getCoupon().value_or(0.0);
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
+        if (dt == 0.0) {
+            return std::vector<double>(steps, S); // No time: the distributions below would have no spread
+        }
 
         StandardNormalDistribution snDist;
         PoissonDistribution poissonDist(lambda_ * dt);
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 262c8a3..7fd3252 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -32,6 +32,9 @@ namespace OptionPricer {
         const double c = stockData_->getCoupon().value_or(0.0);
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
+        if (dt == 0.0) {
+            return std::vector<double>(steps, S); // No time: the distributions below would have no spread
+        }
 
         StandardNormalDistribution snDist;
         PoissonDistribution poissonDist(lambda_ * dt);
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index f2d18fd..08be657 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -39,6 +39,9 @@ namespace OptionPricer {
         }
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
+        if (dt == 0.0) {
+            return std::vector<double>(steps, S); // No time: the distributions below would have no spread
+        }
 
         StandardNormalDistribution snDist;
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // shape and rate: mean dt, variance nu*dt
-- 
2.43.0


From 162d05bef01707c827e0332057686d65e880e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 34/34] fix: explicit Euler sets the boundary values of the
 time level it computes, not of the one before

---
 .../solver/one_factor/euler_explicit_fdm_solver.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
index f2a87f5..0fa73f3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
@@ -13,8 +13,8 @@ namespace OptionPricer::FDM::OneFactor {
     EulerExplicitFDM::~EulerExplicitFDM() = default;
 
     void EulerExplicitFDM::calculateBoundaryConditions() {
-        newPrices.front() = pde_->boundaryLeft(tPrev, xValues.front());
-        newPrices.back() = pde_->boundaryRight(tPrev, xValues.back());
+        newPrices.front() = pde_->boundaryLeft(tCurr, xValues.front());
+        newPrices.back() = pde_->boundaryRight(tCurr, xValues.back());
     }
 
     void EulerExplicitFDM::calculateInnerDomain() {
-- 
2.43.0

