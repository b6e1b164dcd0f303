From 3b78dc3b0cdcadce8c1014d0c82719bc37948689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 01/34] fix: restart the expected cost decrease with every
 backward sweep

---
 altro/ilqr/ilqr.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1425ea3..27a25ae 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -394,11 +394,13 @@ class iLQR {
     Eigen::Matrix<double, n, 1>* Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
 
     int max_reg_count = 0;
-    deltaV_[0] = 0.0;
-    deltaV_[1] = 0.0;
 
     bool repeat_backwardpass = true;
     while (repeat_backwardpass) {
+      // Discard the contributions of any previously abandoned sweep
+      deltaV_[0] = 0.0;
+      deltaV_[1] = 0.0;
+
       for (int k = N_ - 1; k >= 0; --k) {
         // TODO(bjackson)[SW-16103] Create a test that checks this
         knotpoints_[k]->CalcActionValueExpansion(*Sxx_prev, *Sx_prev);
-- 
2.43.0


From 47c730db6f21a04bdc011d4af54d037ae083f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 02/34] fix: stop the iLQR solve when the backward pass fails

---
 altro/ilqr/ilqr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 27a25ae..67b78ce 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -300,6 +300,9 @@ class iLQR {
     for (int iter = 0; iter < GetOptions().max_iterations_inner; ++iter) {
       UpdateExpansions();
       BackwardPass();
+      if (status_ == SolverStatus::kBackwardPassRegularizationFailed) {
+        break;  // the gains are incomplete, so there is no policy to roll out
+      }
       ForwardPass();
       UpdateConvergenceStatistics();
 
-- 
2.43.0


From eacb4e2eac52f98acd5e873e408e010f393e18c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 03/34] fix: restore the costs of the kept trajectory after a
 failed line search

---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 67b78ce..1fe6957 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -553,7 +553,11 @@ class iLQR {
       (*Z_) = (*Zbar_);
     } else {
       IncreaseRegularization();
+      // The line search left the costs and constraint values of the last rejected
+      // candidate behind. Restore those of the trajectory that is kept.
+      Cost(*Z_);
       J = J0;
+      stats_.Log("cost", J);
     }
 
     if (J > J0) {
-- 
2.43.0


From 28fa91038c9cfe186d98b1c1fa19ae13c5aeb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 04/34] fix: do not query undefined dynamics in
 Problem::IsFullyDefined

---
 altro/problem/problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 7b32f0d..8798e03 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -20,7 +20,8 @@ bool Problem::IsFullyDefined(const bool verbose) const {
     bool good_state_dim = true;
     if (k == 0) {
       has_initial_state = initial_state_->size() > 0;
-      good_state_dim = has_initial_state && (models_[k]->StateDimension() == initial_state_->size());
+      good_state_dim = has_initial_state && (models_[k] != nullptr) &&
+                       (models_[k]->StateDimension() == initial_state_->size());
       valid_k = valid_k && has_initial_state && good_state_dim;
     }
     valid = valid && valid_k;
-- 
2.43.0


From 28f60f1dc3bc82c0f62c6b1abfd05f858a1105c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 05/34] fix: check the knot point index in
 Problem::SetConstraint

---
 altro/problem/problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 8798e03..d9e3802 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -44,6 +44,7 @@ bool Problem::IsFullyDefined(const bool verbose) const {
 template <>
 void Problem::SetConstraint<constraints::Equality>(
     std::shared_ptr<constraints::Constraint<constraints::Equality>> con, int k) {
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
   eq_[k].emplace_back(std::move(con));
@@ -52,6 +53,7 @@ void Problem::SetConstraint<constraints::Equality>(
 template <>
 void Problem::SetConstraint<constraints::Inequality>(
     std::shared_ptr<constraints::Constraint<constraints::Inequality>> con, int k) {
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
   ineq_[k].emplace_back(std::move(con));
-- 
2.43.0


From 467030a46b2431f3ed5109c87ef99f8b2cc9ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:57 +0000
Subject: [PATCH 06/34] fix: copy the number of segments with a Problem

---
 altro/problem/problem.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 670ff4e..b1c49f5 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -77,6 +77,7 @@ class Problem {
       : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
 
   Problem& operator=(const Problem& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = other.costfuns_;
     models_ = other.models_;
@@ -86,11 +87,16 @@ class Problem {
   }
 
   Problem(const Problem& other)
-      : costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
+      : N_(other.N_),
+        costfuns_(other.costfuns_),
+        models_(other.models_),
+        eq_(other.eq_),
+        ineq_(other.ineq_) {
     *initial_state_ = *(other.initial_state_);
   }
 
   Problem& operator=(Problem&& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
@@ -100,7 +106,8 @@ class Problem {
   }
 
   Problem(Problem&& other)
-      : initial_state_(other.initial_state_),
+      : N_(other.N_),
+        initial_state_(other.initial_state_),
         costfuns_(std::move(other.costfuns_)),
         models_(std::move(other.models_)),
         eq_(std::move(other.eq_)),
-- 
2.43.0


From 2cbd812d5dab717a59b291744a66b219e78d747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:57 +0000
Subject: [PATCH 07/34] fix: create the candidate trajectory in
 iLQR::MakeTrajectory

---
 altro/ilqr/ilqr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1fe6957..b68fc0a 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -214,8 +214,9 @@ class iLQR {
    * @return std::shared_ptr<Trajectory<n, m>> A new zero-initialized trajectory.
    */
   std::shared_ptr<Trajectory<n, m>> MakeTrajectory(float dt) {
-    Z_ = std::make_shared<Trajectory<n, m>>(NumSegments());
-    Z_->SetUniformStep(dt);
+    auto traj = std::make_shared<Trajectory<n, m>>(NumSegments());
+    traj->SetUniformStep(dt);
+    SetTrajectory(traj);  // also creates the temporary trajectory
     return Z_;
   }
 
-- 
2.43.0


From 1c11e10d55e4bb7343b05fc2d54529b07a7311e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:57 +0000
Subject: [PATCH 08/34] fix: reject a null trajectory in iLQR::SetTrajectory

---
 altro/ilqr/ilqr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index b68fc0a..b5f2472 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -230,6 +230,7 @@ class iLQR {
    * @param traj Pointer to the trajectory
    */
   void SetTrajectory(std::shared_ptr<Trajectory<n, m>> traj) {
+    ALTRO_ASSERT(traj != nullptr, "Cannot pass a nullptr for the trajectory.");
     Z_ = std::move(traj);
     Zbar_ = std::make_unique<Trajectory<n, m>>(*Z_);
     Zbar_->SetZero();
-- 
2.43.0


From 4acf4b2d099bebacdc1de91b02cd8cf259240361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:57 +0000
Subject: [PATCH 09/34] fix: validate the given indices in
 iLQR::SetTaskAssignment

---
 altro/ilqr/ilqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index b5f2472..7f8fbd0 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -258,10 +258,10 @@ class iLQR {
    * interval [`inds[i]`, `inds[i+1]`).
    */
   void SetTaskAssignment(std::vector<int> inds) {
-    ALTRO_ASSERT(work_inds_.back() == NumSegments() + 1,
+    ALTRO_ASSERT(inds.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds.back() == NumSegments() + 1,
                  "Work inds should include the terminal index.");
-    ALTRO_ASSERT(work_inds_[0] == 0, "Work inds should start with a 0.");
-    ALTRO_ASSERT(work_inds_.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds[0] == 0, "Work inds should start with a 0.");
     bool is_sorted = true;
     for (int i = 1; i < inds.size(); ++i) {
       if (inds[i] <= inds[i - 1]) {
-- 
2.43.0


From 2062467a5ee555a99f932db644992a355d3e756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:57 +0000
Subject: [PATCH 10/34] fix: do not accumulate rounding errors in the default
 task assignment

---
 altro/ilqr/ilqr.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 7f8fbd0..a5c9ea3 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -751,11 +751,13 @@ class iLQR {
   void DefaultTaskAssignment() {
     int nthreads = GetOptions().NumThreads();
     int ntasks = nthreads * GetOptions().tasks_per_thread;
+    ALTRO_ASSERT(ntasks > 0, "The number of tasks must be positive.");
     double step = NumSegments() / static_cast<double>(ntasks);
     work_inds_.clear();
-    for (double val = 0.0; val <= NumSegments(); val += step) {
-      work_inds_.emplace_back(static_cast<int>(round(val)));
+    for (int i = 0; i < ntasks; ++i) {
+      work_inds_.emplace_back(static_cast<int>(round(i * step)));
     }
+    work_inds_.emplace_back(NumSegments());
     ALTRO_ASSERT(work_inds_.back() == NumSegments(),
                  "Work inds should include the terminal index.");
     work_inds_.back() += 1;  // Increment the last index to include the terminal index.
-- 
2.43.0


From 28d522f90f90f51b12ce352cc40076c079ed98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 11/34] fix: always use at least one thread when picking the
 hardware concurrency

---
 altro/common/solver_options.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/solver_options.hpp b/altro/common/solver_options.hpp
index 3bab0f5..3ac409e 100644
--- a/altro/common/solver_options.hpp
+++ b/altro/common/solver_options.hpp
@@ -58,7 +58,7 @@ struct SolverOptions {
 
   int NumThreads() const {
     if (nthreads == kPickHardwareThreads) {
-      return std::thread::hardware_concurrency();
+      return std::max(static_cast<int>(std::thread::hardware_concurrency()), 1);  // may be 0
     }
     return std::max(nthreads, 1);
   }
-- 
2.43.0


From ab7cafe986c914e04d2d7b38f5c5e22fa0cbe5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 12/34] fix: do not lock the head twice and keep the count in
 ThreadSafeQueue::Clear

---
 altro/common/threadsafe_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 68b3be1..6ee79ac 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -130,7 +130,8 @@ bool ThreadSafeQueue<T>::IsEmpty() {
 template <class T>
 void ThreadSafeQueue<T>::Clear() {
   std::lock_guard<std::mutex> head_lock(*head_mutex_);
-  while (!IsEmpty()) {
+  while (head_.get() != GetTail()) {
+    --(*size_);
     PopHead();
   }
 }
-- 
2.43.0


From 620d8790bc68078d8b33440350545f65477ad2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 13/34] fix: count a pushed element before it can be popped

---
 altro/common/threadsafe_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 6ee79ac..9d4f335 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -110,8 +110,8 @@ void ThreadSafeQueue<T>::Push(T new_value) {
     Node* const new_tail = new_tail_node.get();
     tail_->next = std::move(new_tail_node);
     tail_ = new_tail;
+    ++(*size_);
   }
-  ++(*size_);
   data_cond_->notify_one();  // wake up 1 thread to process the new data
 }
 
-- 
2.43.0


From c9f0ba14cfe3d69e45f20949ed31302b02f44534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 14/34] fix: join the threads already started when launching
 the pool fails

---
 altro/common/threadpool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 3dd6fc8..42d6c5e 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -52,7 +52,7 @@ void ThreadPool::LaunchThreads(int nthreads) {
       threads_.emplace_back(kernel);
     }
   } catch (...) {
-    is_running_ = false;
+    StopThreads();
     throw;
   }
 }
-- 
2.43.0


From 999dcda6902d4916bba966acfcbfa42f9b31ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 15/34] fix: join running threads before a pool is assigned to

---
 altro/common/threadpool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 42d6c5e..11d539e 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -20,6 +20,9 @@ ThreadPool::ThreadPool(ThreadPool&& other) noexcept
 
 ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
   ALTRO_ASSERT(!other.IsRunning(), "Cannot move a pool while it's running");
+  if (IsRunning()) {
+    StopThreads();
+  }
   is_running_ = static_cast<bool>(other.is_running_);
   threads_ = std::move(other.threads_);
   futures_ = std::move(other.futures_);
-- 
2.43.0


From e2e9e4cffbe6e84782adb3dbf49cc41520f1977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 16/34] fix: wait for every task of the pool and pass on its
 exceptions

---
 altro/common/threadpool.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 11d539e..0409578 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -33,12 +33,20 @@ ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
 
 void ThreadPool::Wait() {
   for (const std::future<void>& future : futures_) {
-    std::future_status status = future.wait_for(timeout_);
-    if (status == std::future_status::timeout) {
+    while (future.wait_for(timeout_) == std::future_status::timeout) {
       fmt::print("Task timed out after {}\n", timeout_);
+      if (!IsRunning()) {
+        return;  // keep the futures, so the tasks can be waited for once launched
+      }
     }
   }
+
+  // All tasks are finished. Pass on the first exception thrown by any of them.
+  std::vector<std::future<void>> finished = std::move(futures_);
   futures_.clear();
+  for (std::future<void>& future : finished) {
+    future.get();
+  }
 }
 
 void ThreadPool::LaunchThreads(int nthreads) {
-- 
2.43.0


From 67f50a935515e5ad1421a955e775e716b6f6451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 17/34] fix: close a profiler file exactly once, when its timer
 switches outputs or is destroyed

---
 altro/common/timer.cpp | 10 ++++++++++
 altro/common/timer.hpp |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 32367f8..5473744 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -105,7 +105,17 @@ Stopwatch Timer::Start(const std::string& name) {
   return Stopwatch();
 }
 
+void Timer::SetOutput(FILE* io) {
+  // Close the current output if it was opened by the Timer
+  if (using_file_) {
+    fclose(io_);
+    using_file_ = false;
+  }
+  io_ = io;
+}
+
 void Timer::SetOutput(const std::string& filename) {
+  SetOutput(stdout);  // close any file opened previously
   FILE* io = fopen(filename.c_str(), "w");
   if (io == nullptr) {
     std::string errmsg = fmt::format("Error opening profiler file \"{}\". Got errno {}.", filename, errno);
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 636b6db..3f9fbb8 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -54,7 +54,7 @@ class Timer : public std::enable_shared_from_this<Timer> {
   void Activate() { active_ = true; }
   void Deactivate() { active_ = false; }
   bool IsActive() const { return active_; }
-  void SetOutput(FILE* io) { io_ = io; }  // ownership of resource remains with user
+  void SetOutput(FILE* io);  // ownership of resource remains with user
   void SetOutput(const std::string& filename);  // takes ownership of the file resource
   friend Stopwatch;  // so that it can populate times_
 
-- 
2.43.0


From 1f0f6016b0c17d12c434815f66d0eb8f93b2cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 18/34] fix: make Stopwatch move-only so that a scope ends once

---
 altro/common/timer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 3f9fbb8..9acd632 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -82,6 +82,7 @@ class Stopwatch {
 
  public:
   ~Stopwatch();
+  Stopwatch(Stopwatch&& other) = default;  // only one object may end the scope
   friend Stopwatch Timer::Start(const std::string& name); // so that Timer can create a Stopwatch
 
  protected:
-- 
2.43.0


From 5fdc2572b456d78f120921357d716810f887fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 19/34] fix: initialize the percentages of a ProfileEntry

---
 altro/common/profile_entry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/common/profile_entry.hpp b/altro/common/profile_entry.hpp
index 488c1a0..24ba170 100644
--- a/altro/common/profile_entry.hpp
+++ b/altro/common/profile_entry.hpp
@@ -24,8 +24,8 @@ struct ProfileEntry : public std::enable_shared_from_this<ProfileEntry> {
 
   std::vector<std::string> name;  // split name stack e.g. "al/ilqr/cost" => ["al", "ilqr", "cost"]
   time_t time;                    // total time in the function
-  int percent_total;              // percentage of total time (e.g. cost_time / al_time)
-  int percent_parent;             // percentage of the parent time (e.g. cost_time / ilqr_time)
+  int percent_total = 0;          // percentage of total time (e.g. cost_time / al_time)
+  int percent_parent = 0;         // percentage of the parent time (e.g. cost_time / ilqr_time)
   Ptr parent = nullptr;           // Pointer to the parent ProfileEntry (e.g. ilqr is the parent of cost).
 
   size_t NumLevels() const { return name.size(); }
-- 
2.43.0


From 3d8159d52b16ef6d6837285691b982156e737150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 20/34] fix: do not narrow the measured times in
 ProfileEntry::CalcStats

---
 altro/common/profile_entry.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/common/profile_entry.cpp b/altro/common/profile_entry.cpp
index ce9d56f..2a1a49e 100644
--- a/altro/common/profile_entry.cpp
+++ b/altro/common/profile_entry.cpp
@@ -36,13 +36,13 @@ ProfileEntry::Ptr ProfileEntry::GetRoot() {
 void ProfileEntry::CalcStats() {
   time_t total_time = GetRoot()->time;
   time_t parent_time = parent ? parent->time : time;
-  int time_us = time.count();
-  int total_us = total_time.count();
+  const time_t::rep time_us = time.count();
+  const time_t::rep total_us = total_time.count();
   const int percent_scaling = 100;
   if (total_us == 0) {
     percent_total = -1;
   } else {
-    percent_total = percent_scaling * time_us / total_us;
+    percent_total = static_cast<int>(percent_scaling * time_us / total_us);
   }
   if (parent_time.count() == 0) {
     percent_parent = -1;
-- 
2.43.0


From dd47c90a884b7ed1673417efa66ea73a1878421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 21/34] fix: handle an empty set of samples in BenchmarkResults

---
 altro/utils/benchmarking.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/utils/benchmarking.hpp b/altro/utils/benchmarking.hpp
index ddf8dca..163241d 100644
--- a/altro/utils/benchmarking.hpp
+++ b/altro/utils/benchmarking.hpp
@@ -45,6 +45,10 @@ struct BenchmarkResults {
 
 template <class Duration>
 BenchmarkResults<Duration> BenchmarkResults<Duration>::Calculate(std::vector<time_t>& times) {
+  if (times.empty()) {
+    return BenchmarkResults<Duration>{time_t(0), time_t(0), time_t(0), time_t(0), time_t(0), 0};
+  }
+
   // Sort for median
   std::sort(times.begin(), times.end());
   int samples = times.size();
-- 
2.43.0


From 932ae621c17e4219f7f6bb124e26df61c0b27d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 22/34] fix: initialize the type of a default-constructed
 LogEntry

---
 altro/common/log_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/log_entry.hpp b/altro/common/log_entry.hpp
index 62a3e35..e7e66d6 100644
--- a/altro/common/log_entry.hpp
+++ b/altro/common/log_entry.hpp
@@ -216,7 +216,7 @@ class LogEntry {
   std::string name_;      // descriptive name (e.g. "penalty parameter" vs. "pen")
   std::string format_;    // Python-style format string
   std::string data_;      // storage for the logged data
-  EntryType type_;
+  EntryType type_ = kFloat;
   LogLevel level_ = LogLevel::kInner;         // verbosity level
   int width_ = kDefaultWidth;        // column width
   bool bounded_ = false;  // does the field have conditional formatting
-- 
2.43.0


From 83b2f153b84daf3c4a41c270f6616581f795e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 23/34] fix: keep the column order by title so that a
 SolverLogger can be copied

---
 altro/common/solver_logger.cpp | 8 ++++----
 altro/common/solver_logger.hpp | 9 +++------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 0113ac6..75879a4 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -11,8 +11,8 @@ void SolverLogger::PrintHeader() {
   }
   int total_width = 0;
   bool any_active = false;
-  for (const std::string* title : order_) {
-    LogEntry& entry = entries_[*title];
+  for (const std::string& title : order_) {
+    LogEntry& entry = entries_[title];
     entry.PrintHeader(cur_level_, header_color_);
     if (entry.IsActive(cur_level_)) {
       any_active = true;
@@ -31,8 +31,8 @@ void SolverLogger::PrintData() {
     return;
   }
   bool any_active = false;
-  for (const std::string* title : order_) {
-    LogEntry& entry = entries_[*title];
+  for (const std::string& title : order_) {
+    LogEntry& entry = entries_[title];
     entry.Print(cur_level_);
     if (entry.IsActive(cur_level_)) {
       any_active = true;
diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index cac8e1c..6f78af3 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -168,7 +168,7 @@ class SolverLogger {
   int frequency_ = kDefaultFrequency;        // frequency of the header print
   int count_ = 0;                            // number of prints since header
   std::unordered_map<std::string, LogEntry> entries_;
-  std::vector<const std::string*> order_;
+  std::vector<std::string> order_;  // titles, in the order they are printed
   fmt::color header_color_ = fmt::color::white;
 };
 
@@ -189,10 +189,6 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   const std::string title = entry.GetTitle();
   auto insert = entries_.emplace(std::make_pair(title, std::move(entry)));
 
-  // Get a pointer to the title string used in the map
-  // insert.first is an iterator over key-value pairs for the map entries_
-  const std::string* title_ptr = &(insert.first->first);
-
   // Specify the output order
   auto it = order_.begin();
   if (col < 0) {
@@ -201,8 +197,9 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   } else {
     it += col;
   }
-  order_.insert(it, title_ptr);
+  order_.insert(it, title);
 
+  // insert.first is an iterator over key-value pairs for the map entries_
   return insert.first->second;
 }
 
-- 
2.43.0


From 73e07322be3bbac252f9699ae3a1807f23676065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 24/34] fix: keep the registered series of SolverStats valid
 when it is copied or moved

---
 altro/common/solver_stats.cpp | 32 +++++++++++++++++---------------
 altro/common/solver_stats.hpp |  7 ++++---
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 0094f8b..4c35966 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -9,8 +9,9 @@
 namespace altro {
 
 template <>
-void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double>& data) {
-  floats_[entry.GetTitle()] = &data;
+void SolverStats::SetPtr<double>(const LogEntry& entry,
+                                 std::vector<double> SolverStats::*data) {
+  floats_[entry.GetTitle()] = data;
 }
 
 void SolverStats::SetTolerances(const double& cost, const double& viol, const double& grad) {
@@ -24,7 +25,7 @@ void SolverStats::SetTolerances(const double& cost, const double& viol, const do
 
 void SolverStats::SetCapacity(int n) {
   for (auto kv : floats_) {
-    kv.second->reserve(n);
+    (this->*kv.second).reserve(n);
   }
 }
 
@@ -35,7 +36,7 @@ void SolverStats::Reset() {
   iterations_outer = 0;
   len_ = 0;
   for (auto kv : floats_) {
-    kv.second->clear();
+    (this->*kv.second).clear();
   }
   logger_.Clear();
   
@@ -54,13 +55,14 @@ void SolverStats::Reset() {
 void SolverStats::NewIteration() {
   len_++;
   for (auto& kv : floats_) {
-    kv.second->resize(len_);
+    std::vector<double>& data = this->*kv.second;
+    data.resize(len_);
 
     // Copy data from previous iteration
     if (len_ > 1) {
-      kv.second->back() = kv.second->rbegin()[1];
+      data.back() = data.rbegin()[1];
     } else {
-      kv.second->back() = 0.0;
+      data.back() = 0.0;
     }
   }
 }
@@ -86,30 +88,30 @@ void SolverStats::DefaultLogger() {
       .SetName("iterations_outer")
       .SetLevel(LogLevel::kOuter)
       .SetWidth(8);  // NOLINT(readability-magic-numbers)
-  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), cost);
-  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), violations);
-  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), cost_decrease);
-  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), gradient);
+  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), &SolverStats::cost);
+  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), &SolverStats::violations);
+  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), &SolverStats::cost_decrease);
+  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), &SolverStats::gradient);
   SetPtr(logger_.AddEntry(-1, "alpha", "{:>.2f}")
              .SetName("line_search_step_length")
              .SetLevel(LogLevel::kInner)
              .SetWidth(6),  // NOLINT(readability-magic-numbers)
-         alpha);
+         &SolverStats::alpha);
   SetPtr(logger_.AddEntry(-1, "reg", "{:>.1e}")
              .SetName("regularization")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         regularization);
+         &SolverStats::regularization);
   SetPtr(logger_.AddEntry(-1, "z", "{:>.3f}")
              .SetName("cost_improvement_ratio")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(5),  // NOLINT(readability-magic-numbers)
-         improvement_ratio);
+         &SolverStats::improvement_ratio);
   SetPtr(logger_.AddEntry(-1, "pen", "{:>.1e}")
              .SetName("max_penalty")
              .SetLevel(LogLevel::kDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         max_penalty);
+         &SolverStats::max_penalty);
   logger_.SetHeaderColor(fmt::color::yellow);
 }
 
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index 68d1dd8..4e6f0d4 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -170,7 +170,7 @@ class SolverStats {
    * @param data One of the publically-accessible vectors stored in this class.
    */
   template <class T>
-  void SetPtr(const LogEntry& entry, std::vector<T>& data) {
+  void SetPtr(const LogEntry& entry, std::vector<T> SolverStats::*data) {
     ALTRO_UNUSED(entry);
     ALTRO_UNUSED(data);
   }
@@ -181,7 +181,8 @@ class SolverStats {
    */
   void DefaultLogger();
 
-  std::unordered_map<std::string, std::vector<double>*> floats_;
+  // Pointers to members, so that they stay valid when the object is copied or moved
+  std::unordered_map<std::string, std::vector<double> SolverStats::*> floats_;
 
   int len_ = 0;
   SolverLogger logger_;
@@ -198,7 +199,7 @@ void SolverStats::SetData(const std::string& title, T value) {
   // Search for the title
   auto search_float = floats_.find(title);
   if (search_float != floats_.end()) {
-    search_float->second->back() = value;
+    (this->*(search_float->second)).back() = value;
   }
 }
 
-- 
2.43.0


From 0ef6bba8573450388c700a17a8baecb54d43faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 25/34] fix: keep a custom work assignment when an iLQR solver
 is moved

---
 altro/ilqr/ilqr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index a5c9ea3..f1e224a 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -68,7 +68,9 @@ class iLQR {
                                 drho_(other.drho_),
                                 deltaV_(std::move(other.deltaV_)),
                                 is_initial_state_set(other.is_initial_state_set),
-                                max_violation_callback_(std::move(other.max_violation_callback_)) {}
+                                custom_work_assignment_(other.custom_work_assignment_),
+                                max_violation_callback_(std::move(other.max_violation_callback_)),
+                                work_inds_(std::move(other.work_inds_)) {}
 
   /**
    * @brief Copy the data from a Problem class into the iLQR solver
-- 
2.43.0


From 465fd803db4baa8685912699db992df86bbcfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 26/34] fix: re-target the violation callback when the
 constrained solver is moved

---
 altro/augmented_lagrangian/al_solver.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 7e90171..f9d5250 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -34,6 +34,15 @@ class AugmentedLagrangianiLQR {
  public:
   explicit AugmentedLagrangianiLQR(int N) : ilqr_solver_(N), costs_(), max_violation_(N + 1) {}
   explicit AugmentedLagrangianiLQR(const problem::Problem& prob);
+  AugmentedLagrangianiLQR(AugmentedLagrangianiLQR&& other) noexcept
+      : ilqr_solver_(std::move(other.ilqr_solver_)),
+        costs_(std::move(other.costs_)),
+        status_(other.status_),
+        max_violation_(std::move(other.max_violation_)) {
+    if (!costs_.empty()) {
+      SetConstraintCallback();
+    }
+  }
 
   void InitializeFromProblem(const problem::Problem& prob);
 
@@ -215,6 +224,12 @@ class AugmentedLagrangianiLQR {
   void ResetDualVariables();
 
  private:
+  // The callback refers to this object, so it must be set again after a move
+  void SetConstraintCallback() {
+    auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
+    ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  }
+
   Stopwatch CreateTimer(const std::string& name) { return GetStats().GetTimer()->Start(name); }
 
   ilqr::iLQR<n, m> ilqr_solver_;
@@ -244,8 +259,7 @@ void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem
                            prob.NumSegments(), costs_.size()));
   // ilqr_solver_.InitializeFromProblem(prob_al);
   ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
-  auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
-  ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  SetConstraintCallback();
 }
 
 template <int n, int m>
-- 
2.43.0


From 2e1fa6aff64748faffb3b87f8e6e7aca5a9d6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 27/34] fix: reset the status of the constrained solver at the
 start of a solve

---
 altro/augmented_lagrangian/al_solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index f9d5250..da252fe 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -303,6 +303,7 @@ void AugmentedLagrangianiLQR<n, m>::Init() {
   Stopwatch sw = CreateTimer("init");
 
   SolverStats& stats = GetStats();
+  status_ = SolverStatus::kUnsolved;
   if (GetOptions().reset_duals) {
     ResetDualVariables();
   }
-- 
2.43.0


From f229736db98638e2123355b28d6152d4028c5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:55 +0000
Subject: [PATCH 28/34] fix: evaluate the stage Jacobians of RungeKutta4 at the
 stage times

---
 altro/problem/integration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/problem/integration.hpp b/altro/problem/integration.hpp
index 5827f91..c423eb1 100644
--- a/altro/problem/integration.hpp
+++ b/altro/problem/integration.hpp
@@ -141,13 +141,13 @@ class RungeKutta4 final : public ExplicitIntegrator<NStates, NControls> {
     dynamics->Jacobian(x, u, t, jac);
     A_[0] = jac.topLeftCorner(n, n);
     B_[0] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k1_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k1_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[1] = jac.topLeftCorner(n, n);
     B_[1] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k2_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k2_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[2] = jac.topLeftCorner(n, n);
     B_[2] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + k3_ * h, u, t, jac);
+    dynamics->Jacobian(x + k3_ * h, u, t + h, jac);
     A_[3] = jac.topLeftCorner(n, n);
     B_[3] = jac.topRightCorner(n, m);
 
-- 
2.43.0


From 2840b27e3c3704d21472a733105f510da6f31efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:55 +0000
Subject: [PATCH 29/34] fix: fill the bottom-left block of the full cost
 Hessian

---
 altro/problem/costfunction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/problem/costfunction.hpp b/altro/problem/costfunction.hpp
index b4a7c38..dd14f59 100644
--- a/altro/problem/costfunction.hpp
+++ b/altro/problem/costfunction.hpp
@@ -69,6 +69,7 @@ class CostFunction : public altro::ScalarFunction {
     constexpr int Nu = NControls;
     Hessian(x, u, hess.topLeftCorner<Nx, Nx>(n, n), hess.topRightCorner<Nx, Nu>(n, m),
             hess.bottomRightCorner<Nu, Nu>(m, m));
+    hess.bottomLeftCorner<Nu, Nx>(m, n) = hess.topRightCorner<Nx, Nu>(n, m).transpose();
   }
 };
 }  // namespace problem
-- 
2.43.0


From 4b6a21732d24dc74dde2d2d2031d59ae6d2fd18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 30/34] fix: reject a zero penalty parameter

---
 altro/constraints/constraint_values.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index bc37072..f3bbcaf 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -77,7 +77,7 @@ class ConstraintValues : public Constraint<ConType> {
    * @param rho Penalty value. rho >= 0.
    */
   void SetPenalty(double rho) {
-    ALTRO_ASSERT(rho >= 0, "Penalty must be positive.");
+    ALTRO_ASSERT(rho > 0, "Penalty must be positive.");
     penalty_.setConstant(rho);
   }
 
-- 
2.43.0


From 63453070ff9cc49139d2e6c2c369e4ce1ffb1291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 31/34] fix: write the Jacobian of a ScalarFunction into a row
 of a larger matrix

---
 altro/common/functionbase.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/altro/common/functionbase.hpp b/altro/common/functionbase.hpp
index 18a7386..4e30d7c 100644
--- a/altro/common/functionbase.hpp
+++ b/altro/common/functionbase.hpp
@@ -146,9 +146,11 @@ class ScalarFunction : public FunctionBase {
 
   void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
     ALTRO_ASSERT(jac.rows() == 1, "Jacobian of a scalar function must have a single row.");
-    // Reinterpret the 1xN Jacobian as an Nx1 column vector
-    Eigen::Map<VectorNd<jac.ColsAtCompileTime>> grad(jac.data(), jac.cols());
+    // The row isn't contiguous in memory when it's a row of a larger matrix, so it can't be
+    // reinterpreted as a column vector
+    VectorXd grad = jac.transpose();
     Gradient(x, u, grad);
+    jac = grad.transpose();
   }
 
   void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b,
-- 
2.43.0


From 02d224992cc7ac585c7b321b8ae390bc3178b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 32/34] fix: take the dimensions of CheckHessian from the given
 point

---
 altro/common/functionbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/common/functionbase.cpp b/altro/common/functionbase.cpp
index f9a76c8..ab061bb 100644
--- a/altro/common/functionbase.cpp
+++ b/altro/common/functionbase.cpp
@@ -83,8 +83,8 @@ bool FunctionBase::CheckHessian(const double eps, const bool verbose) {
 }
 bool FunctionBase::CheckHessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b,
                   const double eps, const bool verbose) {
-  int n = StateDimension();
-  int m = ControlDimension();
+  int n = x.size();
+  int m = u.size();
   VectorXd z(n + m);
   z << x, u;
 
-- 
2.43.0


From 4201cedbb3c29d3cb9a74bdc5f709f041753ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 33/34] fix: do not allow copying a Timer, which owns its
 output file

---
 altro/common/timer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 9acd632..704a4f3 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -42,6 +42,8 @@ class Timer : public std::enable_shared_from_this<Timer> {
   using microseconds = std::chrono::microseconds; 
  public:
   ~Timer();
+  Timer(const Timer& other) = delete;  // only one object may close the output file
+  Timer& operator=(const Timer& other) = delete;
   static std::shared_ptr<Timer> MakeShared() {
     return std::shared_ptr<Timer>(new Timer());
   }
-- 
2.43.0


From bee35fdbbacb0034bc45e4a1497f5d05e6157bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 34/34] fix: do not divide by a header frequency of zero

---
 altro/common/solver_logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 75879a4..ddec8b2 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -45,7 +45,7 @@ void SolverLogger::PrintData() {
 }
 
 void SolverLogger::Print() {
-  if ((count_ % frequency_) == 0) {
+  if (frequency_ > 0 && (count_ % frequency_) == 0) {
     count_ = 0;
     PrintHeader();
   }
-- 
2.43.0

