From 2c6436b208d03cfe44d30f836300bd46319a645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 01/26] fix: report a failing task of the thread pool instead
 of waiting for it forever

A task that threw was never put to the done queue, so DoTasks waited for it
for good; anything not derived from std::exception ended the process.
Now the worker hands the task back with its exception, and DoTasks rethrows
the first one after all tasks of the batch are done, like the sequential pool.
---
 src/parallel/thread/thread_worker_pool.cpp      | 11 ++++++++++-
 src/parallel/thread/thread_worker_pool_task.cpp | 13 ++++++++++---
 src/parallel/thread/thread_worker_pool_task.h   |  9 ++++++++-
 src/parallel/thread/worker.h                    | 14 +++++++++++++-
 4 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool.cpp b/src/parallel/thread/thread_worker_pool.cpp
index 050ea44..f69ad2b 100644
--- a/src/parallel/thread/thread_worker_pool.cpp
+++ b/src/parallel/thread/thread_worker_pool.cpp
@@ -20,14 +20,23 @@ std::vector< ITaskResult::shared_ptr > ThreadWorkerPool::DoTasks (
     CheckAvailableWorkers();
 
     std::vector< ITaskResult::shared_ptr > results(tasks.size());
+    std::vector< boost::exception_ptr > failures(tasks.size());
     std::queue<ThreadWorkerPoolTask> tasks_queue;
 
     for(size_t i=0; i<tasks.size(); i++)
     {
-        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i])) );
+        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i]), &(failures[i])) );
     }
 
     worker_pool_.DoTasks(tasks_queue);
+
+    for(size_t i=0; i<failures.size(); i++)
+    {
+        if(failures[i])
+        {
+            boost::rethrow_exception(failures[i]);
+        }
+    }
     return results;
 }
 
diff --git a/src/parallel/thread/thread_worker_pool_task.cpp b/src/parallel/thread/thread_worker_pool_task.cpp
index 46174b3..7c007f4 100644
--- a/src/parallel/thread/thread_worker_pool_task.cpp
+++ b/src/parallel/thread/thread_worker_pool_task.cpp
@@ -8,18 +8,25 @@ namespace thread
 {
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask()
-    :task_to_do_(NULL), result_to_be_written_(NULL) {}
+    :task_to_do_(NULL), result_to_be_written_(NULL), failure_to_be_written_(NULL) {}
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask(
     const ITask* task_to_do,
-    ITaskResult::shared_ptr* result_to_be_written)
-        :task_to_do_(task_to_do), result_to_be_written_(result_to_be_written) {}
+    ITaskResult::shared_ptr* result_to_be_written,
+    boost::exception_ptr* failure_to_be_written)
+        :task_to_do_(task_to_do), result_to_be_written_(result_to_be_written),
+        failure_to_be_written_(failure_to_be_written) {}
 
 void ThreadWorkerPoolTask::DoTask()
 {
     (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
 }
 
+void ThreadWorkerPoolTask::SetFailure(const boost::exception_ptr& failure)
+{
+    (*failure_to_be_written_) = failure;
+}
+
 } /* namespace thread */
 } /* namespace parallel */
 } /* namespace k52 */
diff --git a/src/parallel/thread/thread_worker_pool_task.h b/src/parallel/thread/thread_worker_pool_task.h
index 868dadf..464d27d 100644
--- a/src/parallel/thread/thread_worker_pool_task.h
+++ b/src/parallel/thread/thread_worker_pool_task.h
@@ -1,6 +1,8 @@
 #ifndef THREADWORKERPOOLTASK_H_
 #define THREADWORKERPOOLTASK_H_
 
+#include <boost/exception_ptr.hpp>
+
 #include <k52/parallel/i_worker_pool.h>
 
 namespace k52
@@ -17,13 +19,18 @@ public:
 
     ThreadWorkerPoolTask(
         const ITask* task_to_do,
-        ITaskResult::shared_ptr* result_to_be_written);
+        ITaskResult::shared_ptr* result_to_be_written,
+        boost::exception_ptr* failure_to_be_written);
 
     void DoTask();
 
+    ///Remembers the exception thrown by DoTask
+    void SetFailure(const boost::exception_ptr& failure);
+
 private:
     const ITask* task_to_do_;
     ITaskResult::shared_ptr* result_to_be_written_;
+    boost::exception_ptr* failure_to_be_written_;
 };
 
 } /* namespace thread */
diff --git a/src/parallel/thread/worker.h b/src/parallel/thread/worker.h
index be96347..255cd83 100644
--- a/src/parallel/thread/worker.h
+++ b/src/parallel/thread/worker.h
@@ -60,7 +60,19 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
             //boost::this_thread::disable_interruption di;
             TTask to_do;
             tasks_to_do->WaitAndPop(to_do);
-            to_do.DoTask();
+            try
+            {
+                to_do.DoTask();
+            }
+            catch(boost::thread_interrupted&)
+            {
+                throw;
+            }
+            catch(...)
+            {
+                //The one waiting for the task must get it back even if the task has failed
+                to_do.SetFailure(boost::current_exception());
+            }
             done_tasks->Push(to_do);
         }
         catch(boost::thread_interrupted&)
-- 
2.43.0


From 6533a80ba7d554e140bef437e344723cef66d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 02/26] fix: stop the started workers when the thread pool can
 not start all of them

The constructor left the threads already started running on queues which were
destroyed right after.
---
 .../thread/thread_worker_pool_templated.h     | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 8be88ad..c7f11e3 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -99,9 +99,28 @@ void ThreadWorkerPoolTemplated<TTask>::Initialize()
 
     workers_ = new Worker<TTask> [number_of_workers_];
 
-    for(int i=0; i<number_of_workers_; i++)
+    int number_of_started = 0;
+    try
+    {
+        for(int i=0; i<number_of_workers_; i++)
+        {
+            workers_[i].Start(&tasks_to_do_, &done_tasks_);
+            number_of_started++;
+        }
+    }
+    catch(...)
     {
-        workers_[i].Start(&tasks_to_do_, &done_tasks_);
+        //Destructor will not be called, but the started workers still use the queues
+        for(int i=0; i<number_of_started; i++)
+        {
+            workers_[i].Stop();
+        }
+        for(int i=0; i<number_of_started; i++)
+        {
+            workers_[i].Join();
+        }
+        delete [] workers_;
+        throw;
     }
 }
 
-- 
2.43.0


From e5a626231ac83a369ca6748e8cf26351c1e3acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 03/26] fix: rounding must not make the linear mutation
 probability invalid

LinearMutator(0.3, 0) over four generations computed a probability slightly
below zero in the last one, so the whole optimisation failed with
'Invalid probability value'.
---
 src/optimization/genetic_algorithm/linear_mutator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 8294f67..cbf62ca 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stdexcept>
 #include <k52/common/random.h>
 #include <k52/optimization/linear_mutator.h>
@@ -25,7 +26,11 @@ double LinearMutator::GetCurrentGenMutationProbability()
 {
     double current = get_mutation_context().current_generation;
     double max = get_mutation_context().max_number_of_generations - 1;
-    return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+    double probability = (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+
+    //Rounding must not lead out of the interval between two valid probabilities
+    probability = std::max(probability, std::min(start_mutation_value_, end_mutation_value_));
+    return std::min(probability, std::max(start_mutation_value_, end_mutation_value_));
 }
 }/* namespace optimization */
 }/* namespace k52 */
-- 
2.43.0


From 40e520905081ee84aab105e7a7a8582d0bf5aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 04/26] fix: make every value of a discrete parameter
 representable

IntParameter with a range that is a power of two (0..1, 0..4) had one bit too
few: the upper bound was encoded as the lower one, and 0..1 got no bit at all,
so a genetic algorithm on it died of a division by zero. DoubleParameter had
the same hole at its upper bound, and lost a quantum when a value taken from
it was set again because it truncated instead of rounding.
---
 src/optimization/params/double_parameter.cpp | 16 +++++++++++++---
 src/optimization/params/int_parameter.cpp    |  6 +++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index cab781e..3b73847 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -92,12 +92,21 @@ void DoubleParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chr
 
 double DoubleParameter::GetValue() const
 {
-    return  base_int_parameter_->get_value() * precision_ + min_value_;
+    int int_value = base_int_parameter_->get_value();
+
+    //Rounding must not make the upper bound unreachable
+    if(int_value == base_int_parameter_->get_max_value())
+    {
+        return max_value_;
+    }
+
+    return int_value * precision_ + min_value_;
 }
 
 void DoubleParameter::SetValue(double value)
 {
-    int int_value = (int)((value - min_value_)/precision_);
+    //To the nearest, so that values got from GetValue are set exactly
+    int int_value = (int)std::floor((value - min_value_)/precision_ + 0.5);
     base_int_parameter_->set_value(int_value);
 }
 
@@ -128,11 +137,12 @@ int DoubleParameter::GetMaxInt(double min_value, double max_value, double precis
 
 int DoubleParameter::CountBestMaxInt(int initial_max_int)
 {
+    //The biggest value with the same number of bits - every chromosome is valid then
     int best_max_int = 1;
 
     while(initial_max_int>best_max_int)
     {
-        best_max_int *= 2;
+        best_max_int = best_max_int*2 + 1;
     }
 
     return best_max_int;
diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 50f83ee..9b0a548 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -87,12 +87,12 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
-    int x = 1;
+    //All values from 0 to target must be representable
     int target = max_value - min_value;
     size_t power = 0;
-    while(target>x)
+    while(target>0)
     {
-        x*=2;
+        target/=2;
         power++;
     }
     return power;
-- 
2.43.0


From 47b32b165e005377ba3d6703bd4328a6326b4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 05/26] fix: evaluate given initial parameters as their
 chromosome represents them

An individual initialised from parameters was evaluated with their exact
values, while its chromosome represents only the nearest grid point. The
parameters returned by the optimisation then differed from the reported best.
---
 src/optimization/genetic_algorithm/individual.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 70e0e24..6d9f6b4 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -69,6 +69,9 @@ void Individual::Initialize(const IDiscreteParameters* const parameters)
     times_chosen_for_crossover_ = 0;
 
     initialization_checker_.SetInitialized();
+
+    //Chromosome may represent parameters only approximately
+    SetParametersAccordingToChromosome();
 }
 
 const IDiscreteParameters* const Individual::GetParametersAccordingToChromosome() const
-- 
2.43.0


From 3f720212cccf6dac479cb89d2cc98085fc250165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 06/26] fix: start every genetic optimization from a clean
 state

A GeneticAlgorithm object used for a second function answered from the cache of
the first one and so reported and returned values of the wrong function; the
first report also counted invalid chromosomes and cache hits of the previous
run, in particular of one that had failed.
---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 5 +++++
 src/optimization/objective_function_counter.cpp          | 8 +++++++-
 src/optimization/objective_function_counter.h            | 3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 3ac508a..8057ae8 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -186,6 +186,11 @@ void GeneticAlgorithm::Initialize(const IDiscreteParameters* parameters_to_optim
     population_ = vector<Individual::shared_ptr>(population_size_);
     population_statistics_ = vector<IndividualStatistics>(population_size_);
 
+    //Nothing must remain from the previous optimization
+    fitness_counter_->ResetCache();
+    fitness_counter_->ResetCacheHits();
+    invalid_chromosomes_ = 0;
+
     if (were_initial_parameters_set_)
     {
         ValidateInitialParameters(parameters_to_optimize);
diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 02f0abb..b891ff2 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -17,7 +17,8 @@ ObjectiveFunctionCounter::ObjectiveFunctionCounter(double cache_data_limit_in_me
 {
     cache_hits_ = 0;
     objective_function_counts_ = 0;
-    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes);
+    cache_data_limit_in_megabytes_ = cache_data_limit_in_megabytes;
+    ResetCache();
 
 #ifdef BUILD_WITH_MPI
     CountObjectiveFunctionTask task;
@@ -65,6 +66,11 @@ vector<double> ObjectiveFunctionCounter::CountObjectiveFunctionValues(
     return counted_values;
 }
 
+void ObjectiveFunctionCounter::ResetCache()
+{
+    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes_);
+}
+
 void ObjectiveFunctionCounter::ResetCacheHits()
 {
     cache_hits_ = 0;
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 231687c..bddc440 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -37,6 +37,8 @@ public:
         const std::vector<const IParameters*>& parameters_to_count,
         const IObjectiveFunction& objective_function);
 
+    ///Forgets all cached values - they are only valid for the function they were counted for
+    void ResetCache();
     void ResetCacheHits();
     int get_cache_hits() const;
     int get_objective_function_counts() const;
@@ -63,6 +65,7 @@ protected:
 
 private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
+    double cache_data_limit_in_megabytes_;
     FitnessCache::shared_ptr cache_;
     boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
-- 
2.43.0


From a6cb485c8c2d88577348bbece7d96215bceb667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 07/26] fix: use only the bits that rand() fills as random
 booleans

The loop overflowed int and counted two bits too many: bit 31 of rand() is
always zero and bit 32 repeats bit 0.
---
 src/common/random.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e31dd0e..a932982 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -73,15 +73,9 @@ Random::Random()
     next_bit_in_bool_base_ = 0;
 
     max_bit_in_bool_base_ = 0;
-    int max_bool_base_value = 1;
 
-    for (std::size_t i = 0; i < sizeof(int) * 8; i++)
+    for (int max_bool_base_value = RAND_MAX; max_bool_base_value > 1; max_bool_base_value /= 2)
     {
-        max_bool_base_value *= 2;
-        if (max_bool_base_value > RAND_MAX)
-        {
-            break;
-        }
         max_bit_in_bool_base_ ++;
     }
 }
-- 
2.43.0


From a99c213b604ca944ca0367a83dbed399bf7e70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 08/26] fix: an event of probability 0 never happens

rand() may return 0, and 0 <= 0 made the impossible event happen.
---
 src/common/random.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index a932982..39b78a2 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -61,7 +61,10 @@ bool Random::CheckEventOutcome(double event_probability)
 {
     ValidateProbability(event_probability);
 
-    return GetBaseRandomQuantity() <= event_probability;
+    double base = GetBaseRandomQuantity();
+
+    //Base quantity may be exactly 0, still an impossible event must not happen
+    return event_probability > 0 && base <= event_probability;
 }
 
 Random::Random()
-- 
2.43.0


From 21347f7537bd08d76aaec949fefc6d6dc752aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 09/26] fix: a continuous random quantity never exceeds its
 maximum

base * (max - min) + min is rounded above max for many intervals when rand()
returns RAND_MAX.
---
 src/common/random.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 39b78a2..56efaf8 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -1,6 +1,7 @@
 #include <k52/common/random.h>
 
 #include <stdlib.h>
+#include <algorithm>
 #include <cstdlib>
 #include <time.h>
 #include <cmath>
@@ -33,7 +34,10 @@ double Random::GetBaseRandomQuantity()
 double Random::GetContinuousRandomQuantity(double min_value, double max_value)
 {
     double base = GetBaseRandomQuantity();
-    return base * (max_value - min_value) + min_value;
+    double value = base * (max_value - min_value) + min_value;
+
+    //Rounding must not lead out of the interval
+    return std::min(value, max_value);
 }
 
 std::vector<double> Random::GenerateRandomVector(size_t vector_size, double min_value, double max_value)
-- 
2.43.0


From a0580663bc887f109dab283a14fbfcada2841850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 10/26] fix: refuse a random search with an optimizer and
 without points

It read the first of no values; without an optimizer the same search has
always been refused.
---
 src/optimization/optimization_parameters_processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 02aa245..8312f27 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -29,6 +29,11 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
     const std::vector< IParameters::shared_ptr >& parameters,
     bool maximize)
 {
+    if(parameters.size() < 1)
+    {
+        throw std::invalid_argument("parameters should contain at least one element in vector");
+    }
+
     std::vector< OptimizationTask::shared_ptr > tasks (parameters.size());
     std::vector< const parallel::ITask* > task_pointers (parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
-- 
2.43.0


From 6bf92bac357f441928c8e3f2ce3e056da63abe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 11/26] fix: forget the polygons of the previous optimization
 in Nelder-Mead

---
 src/optimization/bounded_nelder_mead.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index b49c05b..90bfec7 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -71,6 +71,9 @@ void BoundedNelderMead::Receive(boost::mpi::communicator* communicator, int sour
 
 std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<double>& initial_parameters)
 {
+    //Polygons of previous optimizations must not stop this one
+    previous_polygons_.clear();
+
     //Iteration index
     size_t r = 0;
 
-- 
2.43.0


From 1c84ca749b61ebb3961b38a26732a85866f71467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 12/26] fix: return the best vertex found by Nelder-Mead, not
 the worst

---
 src/optimization/bounded_nelder_mead.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 90bfec7..215fb44 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -164,7 +164,8 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     } while (GetTerminationCriteria(r, function_values, polygon));
 
 
-    size_t best_index = std::distance(function_values.begin(), std::max_element(function_values.begin(), function_values.end()));
+    //Values are to be minimized, so the best vertex is the one with the lowest value
+    size_t best_index = std::distance(function_values.begin(), std::min_element(function_values.begin(), function_values.end()));
     return polygon[best_index];
 }
 
-- 
2.43.0


From b33ad778b4521f68ed8cc977195de9b180649eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 13/26] fix: let a spline based wavelet have a value at the end
 of its interval

---
 src/dsp/spline_based_wavelet_function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index 37f38e3..fc74ec2 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -30,7 +30,8 @@ void SplineBased::Init(const std::vector<double> &real, const std::vector<double
     points[0] = points[1] - (points[2] - points[1]);
     values[0] = 0;
     int size(points.size());
-    points[size - 1] = points[size - 2] - (points[size - 3] - points[size - 2]);
+    // the effective part ends at +4, rounding must not leave its end out of the spline
+    points[size - 1] = std::max(4., points[size - 2] - (points[size - 3] - points[size - 2]));
     values[size - 1] = 0;
 
     spline_->Initialize(points, values);
-- 
2.43.0


From ec980218fab0ef15df68c9121bd2df85d8d1cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 14/26] fix: a task that throws boost::thread_interrupted no
 longer ends its worker

The worker took it for its own interruption and finished without returning
the task, so the one waiting for the batch waited forever.
---
 src/parallel/thread/worker.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parallel/thread/worker.h b/src/parallel/thread/worker.h
index 255cd83..36fdb63 100644
--- a/src/parallel/thread/worker.h
+++ b/src/parallel/thread/worker.h
@@ -62,12 +62,10 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
             tasks_to_do->WaitAndPop(to_do);
             try
             {
+                //The worker is stopped only between tasks, so whatever is thrown here belongs to the task
+                boost::this_thread::disable_interruption di;
                 to_do.DoTask();
             }
-            catch(boost::thread_interrupted&)
-            {
-                throw;
-            }
             catch(...)
             {
                 //The one waiting for the task must get it back even if the task has failed
-- 
2.43.0


From 7a003e92782109acbdcfe546af283cc821762d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 15/26] fix: Send chromosomes as chars, boost::mpi does not
 compile for std::vector<bool>

---
 src/optimization/params/discrete_parameters.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/optimization/params/discrete_parameters.cpp b/src/optimization/params/discrete_parameters.cpp
index ff4d7b5..f24a87f 100644
--- a/src/optimization/params/discrete_parameters.cpp
+++ b/src/optimization/params/discrete_parameters.cpp
@@ -17,14 +17,17 @@ void DiscreteParameters::Send(boost::mpi::communicator* communicator, int target
     //TODO to optimize performance do not create intermediate chromosome
     ChromosomeType intermediate_chromosome = ChromosomeType(this->GetChromosomeSize());
     this->SetChromosome(intermediate_chromosome.begin(), intermediate_chromosome.end());
-    communicator->send(target, k52::parallel::mpi::constants::kCommonTag, intermediate_chromosome);
+    //std::vector<bool> does not store bools, boost::mpi can not send it as it is
+    std::vector<char> genes(intermediate_chromosome.begin(), intermediate_chromosome.end());
+    communicator->send(target, k52::parallel::mpi::constants::kCommonTag, genes);
 }
 
 void DiscreteParameters::Receive(boost::mpi::communicator* communicator, int source)
 {
     //TODO to optimize performance do not create intermediate chromosome
-    ChromosomeType intermediate_chromosome;
-    communicator->recv(source, k52::parallel::mpi::constants::kCommonTag, intermediate_chromosome);
+    std::vector<char> genes;
+    communicator->recv(source, k52::parallel::mpi::constants::kCommonTag, genes);
+    ChromosomeType intermediate_chromosome(genes.begin(), genes.end());
     this->SetFromChromosome(intermediate_chromosome.begin(), intermediate_chromosome.end());
 }
 
-- 
2.43.0


From 970bba09abdb585f8464a91f30f4495f4d026acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 16/26] fix: DoTasks waits for tasks already handed over when
 handing over fails

---
 .../thread/thread_worker_pool_templated.h     | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index c7f11e3..b2364ab 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -25,6 +25,7 @@ public:
 
 private:
     void Initialize();
+    void WaitForDoneTasks(int n);
 
     int number_of_workers_;
     Worker<TTask>* workers_;
@@ -74,14 +75,30 @@ int ThreadWorkerPoolTemplated<TTask>::get_number_of_workers() const
 template <class TTask>
 void ThreadWorkerPoolTemplated<TTask>::DoTasks(std::queue<TTask> tasks)
 {
-    int n = tasks.size();
+    int n = 0;
 
-    while(!tasks.empty())
+    try
     {
-        tasks_to_do_.Push(tasks.front());
-        tasks.pop();
+        while(!tasks.empty())
+        {
+            tasks_to_do_.Push(tasks.front());
+            n++;
+            tasks.pop();
+        }
     }
+    catch(...)
+    {
+        //Workers already have some of the tasks, and those still use what belongs to the caller
+        WaitForDoneTasks(n);
+        throw;
+    }
+
+    WaitForDoneTasks(n);
+}
 
+template <class TTask>
+void ThreadWorkerPoolTemplated<TTask>::WaitForDoneTasks(int n)
+{
     for(int i=0; i<n; i++)
     {
         TTask done_task;
-- 
2.43.0


From 2bf958fd485f05c3fb0d7b7dce1fad1f26db5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 17/26] fix: a done task is given back even if memory is short
 for a moment

---
 src/parallel/thread/worker.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/parallel/thread/worker.h b/src/parallel/thread/worker.h
index 36fdb63..1c9afb6 100644
--- a/src/parallel/thread/worker.h
+++ b/src/parallel/thread/worker.h
@@ -4,6 +4,7 @@
 #ifdef BUILD_WITH_BOOST_THREAD
 
 #include <iostream>
+#include <new>
 #include <k52/common/disallow_copy_and_assign.h>
 #include "thread_safe_queue.h"
 
@@ -27,6 +28,8 @@ protected:
     void ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, ThreadSafeQueue<TTask>* done_tasks);
 
 private:
+    static void Return(const TTask& done_task, ThreadSafeQueue<TTask>* done_tasks);
+
     boost::thread thread_;
 
     DISALLOW_COPY_AND_ASSIGN(Worker);
@@ -71,7 +74,7 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
                 //The one waiting for the task must get it back even if the task has failed
                 to_do.SetFailure(boost::current_exception());
             }
-            done_tasks->Push(to_do);
+            Return(to_do, done_tasks);
         }
         catch(boost::thread_interrupted&)
         {
@@ -95,6 +98,24 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
     }
 }
 
+template <class TTask>
+void Worker<TTask>::Return(const TTask& done_task, ThreadSafeQueue<TTask>* done_tasks)
+{
+    while(true)
+    {
+        try
+        {
+            done_tasks->Push(done_task);
+            return;
+        }
+        catch(const std::bad_alloc&)
+        {
+            //The one waiting for the task would wait forever, so try again until there is memory for it
+            boost::this_thread::yield();
+        }
+    }
+}
+
 } /* namespace thread */
 } /* namespace parallel */
 } /* namespace k52 */
-- 
2.43.0


From 23352d3d44295e779dd000f8ff55d89bd1d50e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 18/26] fix: FastFourierTransform throws when its buffers or
 plan can not be made

---
 src/dsp/transform/fast_fourier_transform.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dsp/transform/fast_fourier_transform.cpp b/src/dsp/transform/fast_fourier_transform.cpp
index 8ca0091..bd31e19 100644
--- a/src/dsp/transform/fast_fourier_transform.cpp
+++ b/src/dsp/transform/fast_fourier_transform.cpp
@@ -1,4 +1,5 @@
 #include <k52/dsp/transform/fast_fourier_transform.h>
+#include <new>
 #include <stdexcept>
 
 #ifdef BUILD_WITH_FFTW3
@@ -36,7 +37,15 @@ public:
 
         in_ = (fftw_complex*) fftw_malloc(sizeof(fftw_complex) * sequence_size_);
         out_ = (fftw_complex*) fftw_malloc(sizeof(fftw_complex) * sequence_size_);
-        plan_ = fftw_plan_dft_1d(sequence_size_, in_, out_, FFTW_FORWARD, FFTW_PATIENT);
+        plan_ = (in_ && out_) ? fftw_plan_dft_1d(sequence_size_, in_, out_, FFTW_FORWARD, FFTW_PATIENT) : NULL;
+
+        if(!plan_)
+        {
+            //Destructor will not be called
+            fftw_free(in_);
+            fftw_free(out_);
+            throw std::bad_alloc();
+        }
     }
 
     ~FastFourierTransformImpl()
-- 
2.43.0


From cc508e8382df5a701cb46f121891ccfcbdb34ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 19/26] fix: SetInitialParameters neither reads beyond its
 argument nor is left half done

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 8057ae8..b809a80 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -144,13 +144,15 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
-    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(population_size_);
+    //The number of parameters is checked together with their other properties before an optimization
+    std::vector<IDiscreteParameters::shared_ptr> clones(initial_parameters.size());
 
-    for (std::size_t i = 0; i < population_size_; ++i)
+    for (std::size_t i = 0; i < initial_parameters.size(); ++i)
     {
-        initial_parameters_[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
+        clones[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
     }
 
+    initial_parameters_.swap(clones);
     were_initial_parameters_set_ = true;
 }
 
-- 
2.43.0


From 18bc0c353d0be79d5c1e903abf104458700ddf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:31 +0000
Subject: [PATCH 20/26] fix: values refused by DoubleParametersArray::SetValues
 are not taken over

---
 src/optimization/params/double_parameters_array.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 1e11e75..09f8e42 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -102,12 +102,16 @@ void DoubleParametersArray::SetValues(const std::vector<double>& values)
         throw std::invalid_argument("Values has incorrect size.");
     }
 
-    values_ = values;
-
-    if (!CheckConstraints())
+    //Before taking them over, and as they are: rounded to the precision they could seem to be within the bounds
+    for(size_t i=0; i<values.size(); i++)
     {
-        throw std::invalid_argument("One of the values does not satisfy constraints.");
+        if(!(values[i] >= get_min_value() && values[i] <= get_max_value()))
+        {
+            throw std::invalid_argument("One of the values does not satisfy constraints.");
+        }
     }
+
+    values_ = values;
 }
 
 std::vector<double> DoubleParametersArray::get_values() const
-- 
2.43.0


From 2e03bb4a3c1d130eb2be0be3dcd7584b79983a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:31 +0000
Subject: [PATCH 21/26] fix: discrete random quantities are uniform over wide
 ranges too

---
 src/common/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 56efaf8..e186608 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -58,7 +58,9 @@ bool Random::GetRandomBool()
 
 int Random::GetUniformlyDistributedDiscreteRandomQuantity(int min_value, int max_value)
 {
-    return rand() % (max_value-min_value+1) + min_value;
+    //Scaled, since a remainder favours the lower values of wide ranges
+    long long number_of_values = (long long)max_value - min_value + 1;
+    return (int)(rand() * number_of_values / ((long long)RAND_MAX + 1) + min_value);
 }
 
 bool Random::CheckEventOutcome(double event_probability)
-- 
2.43.0


From 2d8415342daff372d2e468de97c60db00cb367cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 22/26] fix: a batch with a task that is no IMpiTask is refused
 before anything is sent

The check was made when the task's turn came, so the exception left tasks
of the batch with the workers, whose results were never received; the next
batch took them for its own or waited forever.
---
 src/parallel/mpi/mpi_worker_pool.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parallel/mpi/mpi_worker_pool.cpp b/src/parallel/mpi/mpi_worker_pool.cpp
index 2eaaae2..46d4195 100644
--- a/src/parallel/mpi/mpi_worker_pool.cpp
+++ b/src/parallel/mpi/mpi_worker_pool.cpp
@@ -56,6 +56,12 @@ std::vector< ITaskResult::shared_ptr > MpiWorkerPool::DoTasks (const std::vector
     CheckIfServer();
     CheckAvailableWorkers();
 
+    //Before anything is sent, since the results of tasks sent must be received
+    for(size_t i = 0; i < tasks.size(); i++)
+    {
+        GetMpiTask(tasks[i]);
+    }
+
     int current_worker_rank = 1;
     bool was_first_part_sent = false;
 
-- 
2.43.0


From 29390811fefe5a0a85bffb75b2e78cbf46e98821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 23/26] fix: a cache full of often used values is cleared, too

ClearCacheUpToLimit gave up with an exception when values that were used
several times alone exceeded the limit, so a genetic optimisation (or a
wavelet transform) with a small cache failed in the middle. The number of
usages that lets a value stay now grows until the limit is met.
---
 include/k52/common/cache.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index bebf1ce..3ae9e1b 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -121,15 +121,12 @@ template <typename TKey, typename TValue>
 void Cache<TKey, TValue>::ClearCacheUpToLimit()
 {
     //TODO improve cache clear algorithm
-    if (IsSizeLimitExceeded())
+    int number_of_min_usage = 1;
+    while (IsSizeLimitExceeded())
     {
-        int number_of_min_usage = 1;
+        //Values that were used often stay as long as the limit allows
         ClearUnusedCacheValues(number_of_min_usage);
-    }
-
-    if (IsSizeLimitExceeded())
-    {
-        throw std::runtime_error("Unable to clear cache up to limit");
+        number_of_min_usage *= 2;
     }
 }
 
-- 
2.43.0


From f889f97ed429dea802f9fd9b714bcd02557ab75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 24/26] fix: integer parameters over ranges beyond INT_MAX have
 a chromosome

---
 src/optimization/params/int_parameter.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 9b0a548..174476e 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -65,7 +65,8 @@ void IntParameter::SetChromosome(ChromosomeType::iterator from, ChromosomeType::
     size_t chromosome_size = to - from;
     this->CheckForConstChromosomeSize(chromosome_size);
 
-    IntParameter::SetChromosomeFromInt(from, to, value_ - min_value_);
+    //Unsigned, as the difference may be greater than the greatest int
+    IntParameter::SetChromosomeFromInt(from, to, (int)((unsigned int)value_ - (unsigned int)min_value_));
 }
 
 void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
@@ -73,7 +74,7 @@ void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chromo
     size_t chromosome_size = to - from;
     this->CheckForConstChromosomeSize(chromosome_size);
 
-    value_ = IntParameter::GetIntFromChromosome(from, to) + min_value_;
+    value_ = (int)((unsigned int)IntParameter::GetIntFromChromosome(from, to) + (unsigned int)min_value_);
 }
 
 void IntParameter::Initialize(int value, int min_value, int max_value)
@@ -88,7 +89,7 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
     //All values from 0 to target must be representable
-    int target = max_value - min_value;
+    long long target = (long long)max_value - min_value;
     size_t power = 0;
     while(target>0)
     {
@@ -108,11 +109,11 @@ int IntParameter::GetIntFromChromosome(ChromosomeType::const_iterator from, Chro
     {
         if (*it)
         {
-            result |= (1 << bit_number);
+            result |= (1u << bit_number);
         }
         else
         {
-            result &= ~(1 << bit_number);
+            result &= ~(1u << bit_number);
         }
 
         bit_number++;
-- 
2.43.0


From e02de44edc44ce17827d92fdc75ac6144cef07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 25/26] fix: refuse an integer parameter with its bounds turned
 around

---
 src/optimization/params/int_parameter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 174476e..fa5b37b 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -79,6 +79,11 @@ void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chromo
 
 void IntParameter::Initialize(int value, int min_value, int max_value)
 {
+    if(max_value < min_value)
+    {
+        throw std::invalid_argument("maxValue < minValue");
+    }
+
     SetConstChromosomeSize( CountChromosomeSize(min_value, max_value) );
 
     value_ = value;
-- 
2.43.0


From 8a40324fb3b59f3e62665aa42793501528f8f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 26/26] fix: a failed continuous optimization leaves the
 parameters as they were

---
 src/optimization/continuous_optimizer.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/optimization/continuous_optimizer.cpp b/src/optimization/continuous_optimizer.cpp
index 7d5fe84..d742aa7 100644
--- a/src/optimization/continuous_optimizer.cpp
+++ b/src/optimization/continuous_optimizer.cpp
@@ -34,7 +34,18 @@ void ContinuousOptimizer::Optimize(const ContinuousObjectiveFunction &function_t
     maximize_ = maximize;
 
     vector<double> initial_values = parameters_to_optimize->GetValues();
-    vector<double> optimal_parameters = this->FindOptimalParameters(initial_values);
+    vector<double> optimal_parameters;
+
+    try
+    {
+        optimal_parameters = this->FindOptimalParameters(initial_values);
+    }
+    catch(...)
+    {
+        //Evaluations have set other values
+        parameters_to_optimize->SetValues(initial_values);
+        throw;
+    }
 
     parameters_to_optimize_->SetValues(optimal_parameters);
 }
-- 
2.43.0

