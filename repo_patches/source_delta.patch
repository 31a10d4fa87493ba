From 9d962fd1e6a9a78b15fd9e898b3352a150ead247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 001/136] fix: do not leave the thread descriptor dangling
 after DLB_Finalize_sp

---
 src/apis/DLB_interface_sp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/apis/DLB_interface_sp.c b/src/apis/DLB_interface_sp.c
index 7e2336b..b5b3f83 100644
--- a/src/apis/DLB_interface_sp.c
+++ b/src/apis/DLB_interface_sp.c
@@ -45,6 +45,7 @@ dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_a
     spd_enter_dlb(spd);
     int error = Initialize(spd, get_atomic_spid(), ncpus, mask, dlb_args);
     if (error != DLB_SUCCESS) {
+        spd_enter_dlb(NULL);
         spd_unregister(spd);
         free(spd);
         return NULL;
@@ -55,6 +56,8 @@ dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_a
 int DLB_Finalize_sp(dlb_handler_t handler) {
     spd_enter_dlb(handler);
     int error = Finish(handler);
+    /* the thread descriptor must not outlive the handler */
+    spd_enter_dlb(NULL);
     spd_unregister(handler);
     free(handler);
     return error;
-- 
2.43.0


From 35e3178570b2ea544c926f3bcce843c755a7145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 002/136] fix: only grant LeWI requests on CPUs that are lent

---
 src/LB_comm/shmem_cpuinfo.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 35cdc36..c3edc14 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -221,7 +221,8 @@ static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
     if (cpuinfo->state == CPU_BUSY) {
         /* If CPU is claimed, ignore requests and assign owner */
         new_guest = cpuinfo->owner;
-    } else if (shdata->flags.queues_enabled) {
+    } else if (cpuinfo->state == CPU_LENT
+            && shdata->flags.queues_enabled) {
         /* Pop first PID in queue that is eligible for this CPU */
         for (pid_t *it = queue_pid_t_front(&cpuinfo->requests);
                 it != NULL && new_guest == NOBODY;
@@ -247,6 +248,11 @@ static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
                 }
             }
         }
+
+        /* The owner may recover its own CPU by means of a global request */
+        if (new_guest != NOBODY && new_guest == cpuinfo->owner) {
+            cpuinfo->state = CPU_BUSY;
+        }
     } else {
         /* No suitable guest */
         new_guest = NOBODY;
-- 
2.43.0


From ff6604460e3c9436dddcc1e439bc3af30238bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 003/136] fix: serve the requests on the rest of the core when
 its last CPU is lent

---
 src/LB_comm/shmem_cpuinfo.c | 47 ++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index c3edc14..c26228d 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -634,29 +634,32 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
                         .pid = new_guest,
                         .cpuid = cpuid,
                     });
+        }
+    }
 
-            // If SMT is enabled, this CPU could have been the last lent
-            // CPU in core, allowing find_new_guest to find new guests for
-            // the rest of CPUs in the core. Iterate the rest of cpus now:
-            const mu_cpuset_t *core_mask = mu_get_core_mask(cpuid);
-            for (int cpuid_in_core = core_mask->first_cpuid;
-                    cpuid_in_core >= 0;
-                    cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
-                if (cpuid_in_core != cpuid) {
-                    cpuinfo_t *cpuinfo_in_core = &shdata->node_info[cpuid_in_core];
-                    if (cpuinfo_in_core->guest == NOBODY) {
-                        new_guest = find_new_guest(cpuinfo_in_core);
-                        if (new_guest != NOBODY) {
-                            cpuinfo_in_core->guest = new_guest;
-                            array_cpuinfo_task_t_push(
-                                    tasks,
-                                    (const cpuinfo_task_t) {
-                                    .action = ENABLE_CPU,
-                                    .pid = new_guest,
-                                    .cpuid = cpuid_in_core,
-                                    });
-                            CPU_CLR(cpuid_in_core, &shdata->free_cpus);
-                        }
+    // If SMT is enabled, this CPU could have been the last lent
+    // CPU in core, allowing find_new_guest to find new guests for
+    // the rest of CPUs in the core. Iterate the rest of cpus now:
+    if (shdata->flags.hw_has_smt) {
+        const mu_cpuset_t *core_mask = mu_get_core_mask(cpuid);
+        for (int cpuid_in_core = core_mask->first_cpuid;
+                cpuid_in_core >= 0;
+                cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
+            if (cpuid_in_core != cpuid) {
+                cpuinfo_t *cpuinfo_in_core = &shdata->node_info[cpuid_in_core];
+                if (cpuinfo_in_core->guest == NOBODY) {
+                    pid_t new_guest = find_new_guest(cpuinfo_in_core);
+                    if (new_guest != NOBODY) {
+                        cpuinfo_in_core->guest = new_guest;
+                        array_cpuinfo_task_t_push(
+                                tasks,
+                                (const cpuinfo_task_t) {
+                                .action = ENABLE_CPU,
+                                .pid = new_guest,
+                                .cpuid = cpuid_in_core,
+                                });
+                        CPU_CLR(cpuid_in_core, &shdata->free_cpus);
+                        update_occupied_cores(cpuinfo_in_core->owner, cpuid_in_core);
                     }
                 }
             }
-- 
2.43.0


From a5972da15e78a4bf78a6c3bef944a216da92fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 004/136] fix: do not disable idle CPUs when reclaiming one CPU
 of a core

---
 src/LB_comm/shmem_cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index c26228d..64e7a4e 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -900,7 +900,7 @@ int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restr
                     cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
                 if (cpuid_in_core != cpuid) {
                     const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid_in_core];
-                    if (cpuinfo->guest != pid) {
+                    if (cpuinfo->guest != pid && cpuinfo->guest != NOBODY) {
                         array_cpuinfo_task_t_push(
                                 tasks,
                                 (const cpuinfo_task_t) {
-- 
2.43.0


From 3f1108e1847504943d20755691eb3bcfe070a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 005/136] fix: keep the CPU registry consistent in
 DLB_CheckCpuAvailability

---
 src/LB_comm/shmem_cpuinfo.c | 43 +++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 64e7a4e..d0616ec 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2119,32 +2119,39 @@ int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid) {
 }
 
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
+
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
+
     int error = DLB_NOTED;
-    cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+    shmem_lock(shm_handler);
+    {
+        cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-    if (cpuinfo->owner != pid
-            && (cpuinfo->state == CPU_BUSY || cpuinfo->state == CPU_DISABLED) ) {
-        /* The CPU is reclaimed or disabled */
-        error = DLB_ERR_PERM;
-    } else if (cpuinfo->guest == pid) {
-        /* The CPU is already guested by the process */
-        error = DLB_SUCCESS;
-    } else if (cpuinfo->guest == NOBODY ) {
-        /* Assign new guest if the CPU is empty */
-        shmem_lock(shm_handler);
-        {
-            if (cpuinfo->guest == NOBODY) {
+        if (cpuinfo->owner != pid
+                && (cpuinfo->state == CPU_BUSY || cpuinfo->state == CPU_DISABLED) ) {
+            /* The CPU is reclaimed or disabled */
+            error = DLB_ERR_PERM;
+        } else if (cpuinfo->guest == pid) {
+            /* The CPU is already guested by the process */
+            error = DLB_SUCCESS;
+        } else if (cpuinfo->guest == NOBODY ) {
+            /* Assign new guest if the CPU is empty */
+            if (cpuinfo->owner == pid || core_is_eligible(pid, cpuid)) {
+                if (cpuinfo->owner == pid) {
+                    cpuinfo->state = CPU_BUSY;
+                }
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
+                update_occupied_cores(cpuinfo->owner, cpuid);
                 error = DLB_SUCCESS;
             }
+        } else if (cpuinfo->owner == pid
+                && cpuinfo->state == CPU_LENT) {
+            /* The owner is asking for a CPU not reclaimed yet */
+            error = DLB_NOUPDT;
         }
-        shmem_unlock(shm_handler);
-    } else if (cpuinfo->owner == pid
-            && cpuinfo->state == CPU_LENT) {
-        /* The owner is asking for a CPU not reclaimed yet */
-        error = DLB_NOUPDT;
     }
+    shmem_unlock(shm_handler);
 
     return error;
 }
-- 
2.43.0


From 2500eb068253c067660532c692bcfb5f8ef3da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 006/136] fix: reject CPU ids out of range in LeWI calls

---
 src/LB_comm/shmem_cpuinfo.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index d0616ec..1c71b06 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -677,7 +677,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error = DLB_SUCCESS;
     //DLB_DEBUG( cpu_set_t freed_cpus; )
@@ -729,7 +729,7 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
     shmem_lock(shm_handler);
     {
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
             lend_cpu(pid, cpuid, tasks);
 
@@ -874,7 +874,7 @@ int shmem_cpuinfo__reclaim_all(pid_t pid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     //DLB_DEBUG( cpu_set_t recovered_cpus; )
@@ -1190,7 +1190,7 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
 int shmem_cpuinfo__acquire_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1543,7 +1543,7 @@ static int borrow_cpus_in_cpu_set_t(pid_t pid,
 
 int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1716,7 +1716,7 @@ int shmem_cpuinfo__return_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
 
 int shmem_cpuinfo__return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
-- 
2.43.0


From 5ebb3984039f3a30c3e37b6a539ffcb9c51d8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 007/136] fix: do not skip LeWI borrow attempts after a failed
 restricted attempt

---
 src/LB_comm/shmem_cpuinfo.c | 16 +++++++++-------
 src/LB_policies/lewi_mask.c | 18 ++++++++++++++----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 1c71b06..302d341 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1373,8 +1373,10 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
             }
         }
 
-        /* Update timestamp if borrow did not succeed */
-        if (last_borrow != NULL && error != DLB_SUCCESS && error != DLB_NOTED) {
+        /* Update timestamp if borrow did not succeed
+         * (acquire does not consider the free NUMA nodes of spread-ifempty) */
+        if (last_borrow != NULL && error != DLB_SUCCESS && error != DLB_NOTED
+                && lewi_affinity != LEWI_AFFINITY_SPREAD_IFEMPTY) {
             *last_borrow = get_time_in_ns();
         }
     }
@@ -1632,13 +1634,13 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
                 error = DLB_SUCCESS;
             }
         }
-    }
-    shmem_unlock(shm_handler);
 
-    /* Update timestamp if borrow did not succeed */
-    if (last_borrow != NULL && error != DLB_SUCCESS) {
-        *last_borrow = get_time_in_ns();
+        /* Update timestamp if borrow did not succeed */
+        if (last_borrow != NULL && error != DLB_SUCCESS) {
+            *last_borrow = get_time_in_ns();
+        }
     }
+    shmem_unlock(shm_handler);
 
     return error;
 }
diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 0e1430c..323b587 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -633,12 +633,17 @@ int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int ncpus,
         const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
-
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
+    /* A failed attempt with a subset of the CPUs cannot be used later to skip
+     * an attempt with another set, only update last_borrow if not restricted */
+    int64_t last_borrow_copy = lewi_info->last_borrow;
+    int64_t *last_borrow = async ? NULL
+        : cpu_subset->count < lewi_info->cpus_priority_array.count ? &last_borrow_copy
+        : &lewi_info->last_borrow;
+
     /* Provide a number of requested CPUs only if needed */
     int *requested_ncpus = ncpus > 0 ? &ncpus : NULL;
 
@@ -684,12 +689,17 @@ int lewi_mask_BorrowCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
 int lewi_mask_BorrowCpusInMask(const subprocess_descriptor_t *spd, int ncpus, const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
-
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
+    /* A failed attempt with a subset of the CPUs cannot be used later to skip
+     * an attempt with another set, only update last_borrow if not restricted */
+    int64_t last_borrow_copy = lewi_info->last_borrow;
+    int64_t *last_borrow = async ? NULL
+        : cpu_subset->count < lewi_info->cpus_priority_array.count ? &last_borrow_copy
+        : &lewi_info->last_borrow;
+
     /* Provide a number of requested CPUs only if needed */
     int *requested_ncpus = ncpus > 0 ? &ncpus : NULL;
 
-- 
2.43.0


From 56dc63853136a68a4b6d0abbcaa9b6a46aecf292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 008/136] fix: let other processes know when a CPU is returned

---
 src/LB_comm/shmem_cpuinfo.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 302d341..a0130bf 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1670,7 +1670,11 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
     } else {
         /* state is disabled or the core is not eligible */
         cpuinfo->guest = NOBODY;
-        CPU_SET(cpuid, &shdata->free_cpus);
+        if (cpuinfo->state == CPU_LENT) {
+            CPU_SET(cpuid, &shdata->free_cpus);
+            /* the CPU may be borrowed by others now */
+            update_shmem_timestamp();
+        }
     }
 
     // Possibly clear CPU from occupies cores set
-- 
2.43.0


From ba9b52deb6f407e6919bc0c75570acc490cfe454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 009/136] fix: do not resolve stale tasks after a blocking call

---
 src/LB_policies/lewi_mask.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 323b587..5f0d992 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -470,7 +470,8 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
              * Only if asynchronous mode, keep DISABLE tasks, otherwise remove all. */
             if (error == DLB_NOTED
                     && spd->options.mode == MODE_ASYNC) {
-                for (size_t i = 0, i_write = 0; i < tasks->count; ++i) {
+                size_t i_write = 0;
+                for (size_t i = 0; i < tasks->count; ++i) {
                     const cpuinfo_task_t *task = &tasks->items[i];
                     if (task->action == DISABLE_CPU) {
                         if (i != i_write) {
@@ -479,6 +480,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                         ++i_write;
                     }
                 }
+                tasks->count = i_write;
                 /* Async: resolve only DISABLE tasks */
                 resolve_cpuinfo_tasks(spd, tasks);
             } else {
-- 
2.43.0


From 88d1ab51d7c4e67c74fc469be9fb456de420dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 010/136] fix: let guests return the CPUs of a finalized
 process

---
 src/LB_comm/shmem_cpuinfo.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index a0130bf..0769c10 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -185,6 +185,15 @@ static bool cpu_is_occupied(pid_t owner, int cpuid) {
 
 /* Assuming that only cpuid has changed its state, update occupied_cores accordingly */
 static void update_occupied_cores(pid_t owner, int cpuid) {
+    if (owner == NOBODY) {
+        /* The CPU, or the rest of the CPUs in the core, may still need to be returned */
+        const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+        if (cpuinfo->guest == NOBODY || cpuinfo->state == CPU_LENT) {
+            CPU_CLR(cpuid, &shdata->occupied_cores);
+        }
+        return;
+    }
+
     if (shdata->flags.hw_has_smt) {
         if (cpu_is_occupied(owner, cpuid)) {
             if (!CPU_ISSET(cpuid, &shdata->occupied_cores)) {
@@ -301,9 +310,10 @@ static void deregister_cpu(cpuinfo_t *cpuinfo, int pid) {
             queue_pid_t_clear(&cpuinfo->requests);
             CPU_CLR(cpuid, &shdata->free_cpus);
         }
-        /* Clear all CPUs in core from the occupied */
-        const cpu_set_t *core_mask = mu_get_core_mask(cpuinfo->id)->set;
-        mu_substract(&shdata->occupied_cores, &shdata->occupied_cores, core_mask);
+        /* Clear CPU from the occupied set, unless its guest has yet to return it */
+        if (cpuinfo->guest == NOBODY || cpuinfo->state == CPU_LENT) {
+            CPU_CLR(cpuid, &shdata->occupied_cores);
+        }
     } else {
         // Free external CPUs that I may be using
         if (cpuinfo->guest == pid) {
@@ -1847,8 +1857,11 @@ int shmem_cpuinfo__deregister(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                 }
                 cpuinfo->owner = NOBODY;
 
-                /* It will be consistent as long as one core belongs to one process only */
-                CPU_CLR(cpuid, &shdata->occupied_cores);
+                /* It will be consistent as long as one core belongs to one process only.
+                 * If the CPU is disabled but still guested, the guest needs to return it. */
+                if (cpuinfo->guest == NOBODY || cpuinfo->state == CPU_LENT) {
+                    CPU_CLR(cpuid, &shdata->occupied_cores);
+                }
             } else {
                 // Free external CPUs that I might be using
                 if (cpuinfo->guest == pid) {
-- 
2.43.0


From 9941c11fdcc54f08dd54f467ce3a282eb8d6e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 011/136] fix: DLB_ReturnCpuMask reports success if any CPU is
 returned

---
 src/LB_comm/shmem_cpuinfo.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 0769c10..64f2de5 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1760,7 +1760,9 @@ int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask,
                 cpuid >= 0;
                 cpuid = mu_get_next_cpu(&cpus_to_return, cpuid)) {
             int local_error = return_cpu(pid, cpuid, tasks);
-            error = (error < 0) ? error : local_error;
+            if (local_error == DLB_SUCCESS) {
+                error = DLB_SUCCESS;
+            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From e15618d4609e7debcd00cb68b6a8d983c27ea9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 012/136] fix: DLB_SetMaxParallelism must not recover or
 disable CPUs already lent

---
 src/LB_comm/shmem_cpuinfo.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 64f2de5..6b20555 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1929,11 +1929,23 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
     SMALL_ARRAY(cpuid_t, guested_cpus, node_size);
     shmem_lock(shm_handler);
     {
+        // Remove any request, they were done with the previous limit
+        if (shdata->flags.queues_enabled) {
+            queue_lewi_mask_request_t_remove(&shdata->lewi_mask_requests, pid);
+            for (int cpuid=0; cpuid<node_size; ++cpuid) {
+                cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+                if (cpuinfo->owner != pid) {
+                    queue_pid_t_remove(&cpuinfo->requests, pid);
+                }
+            }
+        }
+
         for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
             if (cpuinfo->owner == pid) {
                 ++owned_count;
-                if (max < owned_count) {
+                if (max < owned_count
+                        && (cpuinfo->guest == pid || cpuinfo->state == CPU_BUSY)) {
                     // Lend owned CPUs if the number of owned is greater than max
                     lend_cpu(pid, cpuid, tasks);
                     array_cpuinfo_task_t_push(
-- 
2.43.0


From c3ed22cf82ae0957014fe1d34f09ac36e5861bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 013/136] fix: consider all the used CPUs for the LeWI max
 parallelism

---
 src/LB_comm/shmem_cpuinfo.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 6b20555..341ffe6 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1270,10 +1270,8 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
 
     /* Return immediately if the process has reached the max_parallelism */
     if (max_parallelism != 0) {
-        for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-            cpuid_t cpuid = cpus_priority_array->items[i];
-            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            if (cpuinfo->guest == pid) {
+        for (int cpuid=0; cpuid<node_size; ++cpuid) {
+            if (shdata->node_info[cpuid].guest == pid) {
                 --max_parallelism;
             }
         }
@@ -1605,10 +1603,8 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
 
     /* Return immediately if the process has reached the max_parallelism */
     if (max_parallelism != 0) {
-        for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-            cpuid_t cpuid = cpus_priority_array->items[i];
-            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            if (cpuinfo->guest == pid) {
+        for (int cpuid=0; cpuid<node_size; ++cpuid) {
+            if (shdata->node_info[cpuid].guest == pid) {
                 --max_parallelism;
             }
         }
-- 
2.43.0


From b43a432c91d598a9bd57e26b5f5b0b383532bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 014/136] fix: do not acquire the same core twice

---
 src/LB_comm/shmem_cpuinfo.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 341ffe6..523b2a5 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1154,16 +1154,15 @@ static int acquire_core(pid_t pid, cpuid_t core_id,
 
 static int acquire_cpus_in_array_cpuid_t(pid_t pid,
         const array_cpuid_t *restrict array_cpuid,
-        int *restrict ncpus, array_cpuinfo_task_t *restrict tasks) {
+        int *restrict ncpus, cpu_set_t *restrict visited_cores,
+        array_cpuinfo_task_t *restrict tasks) {
 
     int error = DLB_NOUPDT;
     int _ncpus = ncpus != NULL ? *ncpus : INT_MAX;
     const bool hw_has_smt = shdata->flags.hw_has_smt;
 
-    /* Acquire all CPUs in core if possible
-     * (there is a high chance that consecutive CPUs belong to the same core,
-     * try to skip those ones) */
-    int prev_core_id = -1;
+    /* Acquire all CPUs in core if possible, and only once per core
+     * (CPUs of the same core are not necessarily consecutive) */
     for (unsigned int i = 0;
             _ncpus > 0 && i < array_cpuid->count;
             ++i) {
@@ -1173,14 +1172,14 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
         if (hw_has_smt) {
             cpuid_t core_id = shdata->node_info[cpuid].core_id;
-            if (prev_core_id != core_id) {
+            if (!CPU_ISSET(core_id, visited_cores)) {
                 unsigned int num_acquired;
                 local_error = acquire_core(pid, core_id, tasks, &num_acquired);
                 if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
                     _ncpus -= num_acquired;
                     if (error != DLB_NOTED) error = local_error;
                 }
-                prev_core_id = core_id;
+                CPU_SET(core_id, visited_cores);
             }
         } else {
             local_error = acquire_cpu(pid, cpuid, tasks);
@@ -1224,9 +1223,11 @@ int shmem_cpuinfo__acquire_from_cpu_subset(
         array_cpuinfo_task_t *restrict tasks) {
 
     int error;
+    cpu_set_t visited_cores;
+    CPU_ZERO(&visited_cores);
     shmem_lock(shm_handler);
     {
-        error = acquire_cpus_in_array_cpuid_t(pid, array_cpuid, NULL, tasks);
+        error = acquire_cpus_in_array_cpuid_t(pid, array_cpuid, NULL, &visited_cores, tasks);
     }
     shmem_unlock(shm_handler);
     return error;
@@ -1321,14 +1322,18 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
         }
 
         /* Acquire first owned CPUs that are IDLE */
-        int local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_idle, &ncpus, tasks);
+        cpu_set_t visited_cores;
+        CPU_ZERO(&visited_cores);
+        int local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_idle, &ncpus,
+                &visited_cores, tasks);
         if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
             /* Update error code if needed */
             if (error != DLB_NOTED) error = local_error;
         }
 
         /* Acquire the rest of owned CPUs */
-        local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_non_idle, &ncpus, tasks);
+        local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_non_idle, &ncpus,
+                &visited_cores, tasks);
         if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
             /* Update error code if needed */
             if (error != DLB_NOTED) error = local_error;
-- 
2.43.0


From bbbe8ad3a16ca0ad3576f61ea1891b3179fe215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 015/136] fix: only give up the CPUs actually lost during a
 blocking call

---
 src/LB_comm/shmem_cpuinfo.c | 23 ++++++++++++++++-------
 src/LB_comm/shmem_cpuinfo.h |  3 ++-
 src/LB_policies/lewi_mask.c | 14 ++++++--------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 523b2a5..309d70d 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1569,21 +1569,30 @@ int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restri
     return error;
 }
 
-/* Simplification of shmem_cpuinfo__borrow_ncpus_from_cpu_subset when we just
- * want to iterate all CPUs in set.
- * This function is intended to be called when leaving a blocking call and the
+/* This function is intended to be called when leaving a blocking call and the
  * process knows that the provided CPUs were previously lent and may try to
- * borrow again.
+ * use them again. CPUs neither borrowed nor already in use are set in lost_cpus.
  */
 int shmem_cpuinfo__borrow_from_cpu_subset(
         pid_t pid,
-        const array_cpuid_t *restrict array_cpuid,
+        const cpu_set_t *restrict cpu_subset,
+        cpu_set_t *restrict lost_cpus,
         array_cpuinfo_task_t *restrict tasks) {
 
-    int error;
+    int error = DLB_NOUPDT;
+    CPU_ZERO(lost_cpus);
     shmem_lock(shm_handler);
     {
-        error = borrow_cpus_in_array_cpuid_t(pid, array_cpuid, NULL, tasks);
+        for (int cpuid = mu_get_first_cpu(cpu_subset);
+                cpuid >= 0 && cpuid < node_size;
+                cpuid = mu_get_next_cpu(cpu_subset, cpuid)) {
+            if (shdata->node_info[cpuid].guest == pid
+                    || borrow_cpu(pid, cpuid, tasks) == DLB_SUCCESS) {
+                error = DLB_SUCCESS;
+            } else {
+                CPU_SET(cpuid, lost_cpus);
+            }
+        }
     }
     shmem_unlock(shm_handler);
     return error;
diff --git a/src/LB_comm/shmem_cpuinfo.h b/src/LB_comm/shmem_cpuinfo.h
index f82598e..d6d9215 100644
--- a/src/LB_comm/shmem_cpuinfo.h
+++ b/src/LB_comm/shmem_cpuinfo.h
@@ -80,7 +80,8 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
 int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks);
 int shmem_cpuinfo__borrow_from_cpu_subset(
         pid_t pid,
-        const array_cpuid_t *restrict array_cpuid,
+        const cpu_set_t *restrict cpu_subset,
+        cpu_set_t *restrict lost_cpus,
         array_cpuinfo_task_t *restrict tasks);
 int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
         pid_t pid, int *restrict requested_ncpus,
diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 5f0d992..571d209 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -496,24 +496,22 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
         if (mu_count(&non_owned_cpus) > 0
                 && mu_count(&owned_cpus) == 0) {
 
-            /* Construct a CPU array from non_owned_cpus */
-            array_cpuid_t *cpu_subset = get_cpu_subset(spd);
-            cpu_array_from_cpuset(cpu_subset, &non_owned_cpus);
-
             /* Borrow CPUs, but also ignoring the enable callbacks */
+            cpu_set_t lost_cpus;
             array_cpuinfo_task_t *tasks = get_tasks(spd);
-            error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, cpu_subset, tasks);
+            error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, &non_owned_cpus,
+                    &lost_cpus, tasks);
 
-            if (error != DLB_SUCCESS) {
+            if (mu_count(&lost_cpus) > 0) {
                 /* Annotate the CPU as pending to bypass the shared memory for the next query */
                 mu_or(&lewi_info->pending_reclaimed_cpus, &lewi_info->pending_reclaimed_cpus,
-                        &non_owned_cpus);
+                        &lost_cpus);
 
                 /* We lost the CPU while in MPI.
                     * In async mode, we can just disable the CPU.
                     * In polling mode, the process needs to call Return */
                 if (spd->options.mode == MODE_ASYNC) {
-                    disable_cpu_set(&spd->pm, &non_owned_cpus);
+                    disable_cpu_set(&spd->pm, &lost_cpus);
                 }
             }
         }
-- 
2.43.0


From 6230e78344a053897ce8cd01e6518fcfccba3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 016/136] fix: do not disable a CPU that was recovered after
 being lost

---
 src/LB_policies/lewi_mask.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 571d209..63f0a1e 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -203,6 +203,7 @@ static inline array_cpuinfo_task_t* get_tasks(const subprocess_descriptor_t *spd
 static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
         array_cpuinfo_task_t *restrict tasks) {
 
+    lewi_info_t *lewi_info = spd->lewi_info;
     size_t tasks_count = tasks->count;
 
     /* We don't need it strictly sorted, but if there are 3 or more tasks
@@ -227,6 +228,7 @@ static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
             const cpuinfo_task_t *task = &tasks->items[i];
             if (task->pid == spd->id) {
                 if (task->action == ENABLE_CPU) {
+                    CPU_CLR(task->cpuid, &lewi_info->pending_reclaimed_cpus);
                     enable_cpu(&spd->pm, task->cpuid);
                 }
                 else if (task->action == DISABLE_CPU) {
@@ -260,6 +262,8 @@ static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
             const cpuinfo_task_t *task = &tasks->items[i];
             if (task->pid == spd->id) {
                 if (CPU_COUNT(&cpus_to_enable) > 0) {
+                    mu_substract(&lewi_info->pending_reclaimed_cpus,
+                            &lewi_info->pending_reclaimed_cpus, &cpus_to_enable);
                     enable_cpu_set(&spd->pm, &cpus_to_enable);
                 }
                 if (CPU_COUNT(&cpus_to_disable) > 0) {
@@ -502,6 +506,10 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
             error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, &non_owned_cpus,
                     &lost_cpus, tasks);
 
+            /* CPUs in use again are no longer pending */
+            mu_substract(&lewi_info->pending_reclaimed_cpus,
+                    &lewi_info->pending_reclaimed_cpus, &non_owned_cpus);
+
             if (mu_count(&lost_cpus) > 0) {
                 /* Annotate the CPU as pending to bypass the shared memory for the next query */
                 mu_or(&lewi_info->pending_reclaimed_cpus, &lewi_info->pending_reclaimed_cpus,
-- 
2.43.0


From a964dd4a3cee63b476788614634c40281da1396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 017/136] fix: DLB_BorrowCpus with no CPUs must not borrow all
 of them

---
 src/LB_policies/lewi_mask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 63f0a1e..ea162b8 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -687,7 +687,7 @@ int lewi_mask_BorrowCpu(const subprocess_descriptor_t *spd, int cpuid) {
 }
 
 int lewi_mask_BorrowCpus(const subprocess_descriptor_t *spd, int ncpus) {
-    return lewi_mask_BorrowCpusInMask(spd, ncpus, NULL);
+    return ncpus > 0 ? lewi_mask_BorrowCpusInMask(spd, ncpus, NULL) : DLB_NOUPDT;
 }
 
 int lewi_mask_BorrowCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
-- 
2.43.0


From 06513670f096f13f73418695711107bd0b50d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 018/136] fix: enable_cpu falls back to the add_active_mask
 callback

---
 src/LB_numThreads/numThreads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_numThreads/numThreads.c b/src/LB_numThreads/numThreads.c
index 2405a27..09febe3 100644
--- a/src/LB_numThreads/numThreads.c
+++ b/src/LB_numThreads/numThreads.c
@@ -231,7 +231,7 @@ int enable_cpu(const pm_interface_t *pm, int cpuid) {
         cpu_set_t cpu_set;
         CPU_ZERO(&cpu_set);
         CPU_SET(cpuid, &cpu_set);
-        return enable_cpu_set(pm, &cpu_set);
+        return add_mask(pm, &cpu_set);
     }
 
     if (pm->dlb_callback_enable_cpu_ptr == NULL) {
-- 
2.43.0


From 2008ef8e05f173b8b8a087f3f83aeefc4179a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:55 +0000
Subject: [PATCH 019/136] fix: do not consider disabled CPUs as free

---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 309d70d..f2b9389 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -677,7 +677,8 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
     }
 
     // Add CPU to the appropriate CPU sets
-    if (cpuinfo->guest == NOBODY) {
+    if (cpuinfo->guest == NOBODY
+            && cpuinfo->state != CPU_DISABLED) {
         CPU_SET(cpuid, &shdata->free_cpus);
     }
 
-- 
2.43.0


From 961299a7372b2bf52ffafaa2deb159d5aaeeb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 020/136] fix: check the upper bound of CPU and core ids in
 mask utils

---
 src/support/mask_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index bed6b9e..2821e89 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -552,7 +552,7 @@ int mu_get_num_cores(void) {
 
 int mu_get_core_id(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return -1;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return -1;
 
     for (unsigned int core_id = 0; core_id < sys.num_cores; ++core_id) {
         if (CPU_ISSET_S(cpuid, mu_cpuset_alloc_size,
@@ -566,14 +566,14 @@ int mu_get_core_id(int cpuid) {
 
 const mu_cpuset_t* mu_get_core_mask(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return NULL;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return NULL;
 
     return sys.core_masks_by_cpuid[cpuid];
 }
 
 const mu_cpuset_t* mu_get_core_mask_by_coreid(int core_id) {
 
-    if (core_id < 0 || (unsigned)core_id > sys.num_cores) return NULL;
+    if (core_id < 0 || (unsigned)core_id >= sys.num_cores) return NULL;
 
     return &sys.core_masks_by_coreid[core_id];
 }
-- 
2.43.0


From 9e89cdf1febac73234db8ec3e45a079322e1333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 021/136] fix: accept ranges of a single CPU when parsing a
 mask

---
 src/support/mask_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 2821e89..e0fbdcd 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1086,7 +1086,7 @@ void mu_parse_mask( const char *str, cpu_set_t *mask ) {
                 ptr = endptr;
 
                 // Valid range
-                if ( end > start ) {
+                if ( end >= start ) {
                     for ( unsigned long i=start; i<=end && i<mu_cpuset_setsize; i++ ) {
                         CPU_SET( i, mask );
                     }
-- 
2.43.0


From 1dab249d8b2ce56f701165724f03cc5466cbfe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 022/136] fix: allocate enough space for the Slurm mask

---
 src/support/mask_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index e0fbdcd..fe96037 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1169,8 +1169,9 @@ void mu_get_quoted_mask(const cpu_set_t *mask, char *str, size_t namelen) {
 }
 
 char * mu_parse_to_slurm_format(const cpu_set_t *mask) {
-    char *str = malloc((mu_cpuset_setsize >> 2) + 3);
-    if (str < 0)
+    /* '0x', one digit for every 4 CPUs (rounded up), and '\0' */
+    char *str = malloc(2 + ((mu_cpuset_setsize + 3) >> 2) + 1);
+    if (str == NULL)
         return NULL;
     unsigned int offset = 2;
     unsigned long long val = 0;
-- 
2.43.0


From 35d7736182806518d0132de977057f5f4f680127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 023/136] fix: keep the quotes and the order when truncating a
 quoted mask

---
 src/support/mask_utils.c | 46 ++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index fe96037..f7de7db 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1128,38 +1128,28 @@ void mu_get_quoted_mask(const cpu_set_t *mask, char *str, size_t namelen) {
         int distance = next_unset > 0 ? next_unset - 1 - cpuid
             : mu_get_last_cpu(mask) - cpuid;
 
-        /* Add ',' separator for subsequent entries */
-        if (entry_made) {
-            if (bytes+1 < namelen) {
-                *(b++) = ',';
-                ++bytes;
-            }
-        } else {
-            entry_made = true;
-        }
-
-        /* Write element, pair or range */
+        /* Write separator and element, pair or range */
+        char entry[32];
+        const char *separator = entry_made ? "," : "";
+        int len;
         if (distance == 0) {
-            int len = snprintf(NULL, 0, "%d", cpuid);
-            if (bytes+len < namelen) {
-                b += sprintf(b, "%d", cpuid);
-                bytes += len;
-            }
+            len = snprintf(entry, sizeof(entry), "%s%d", separator, cpuid);
         } else if (distance == 1) {
-            int len = snprintf(NULL, 0, "%d,%d", cpuid, cpuid+1);
-            if (bytes+len < namelen) {
-                b += sprintf(b, "%d,%d", cpuid, cpuid+1);
-                bytes += len;
-                ++cpuid;
-            }
+            len = snprintf(entry, sizeof(entry), "%s%d,%d", separator, cpuid, cpuid+1);
         } else {
-            int len = snprintf(NULL, 0, "%d-%d", cpuid, cpuid+distance);
-            if (bytes+len < namelen) {
-                b += sprintf(b, "%d-%d", cpuid, cpuid+distance);
-                bytes += len;
-                cpuid += distance;
-            }
+            len = snprintf(entry, sizeof(entry), "%s%d-%d", separator, cpuid, cpuid+distance);
         }
+
+        /* Stop at the first entry that does not fit, with its closing quote */
+        if (bytes + len + 1 >= namelen) {
+            break;
+        }
+
+        memcpy(b, entry, len);
+        b += len;
+        bytes += len;
+        cpuid += distance;
+        entry_made = true;
     }
     if (bytes+1 < namelen) {
         *(b++) = '"';
-- 
2.43.0


From 943fe4055eba0906e96741b798fd5fa51ca8bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 024/136] fix: split DLB_ARGS options only at the first equals
 sign

---
 src/support/options.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index c3f3da6..b06bccf 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -778,14 +778,15 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
         /* progress pointer must be updated each iteration to skip spaces */
         while(isspace((unsigned char)*progress)) progress++;
 
-        if (strchr(token, '=')) {
+        char *equal = strchr(token, '=');
+        if (equal) {
             /* Option is of the form --argument=value */
-            char *end_equal;
-            char *argument = strtok_r(token, "=", &end_equal);
+            *equal = '\0';
+            char *argument = token;
             if (strcmp(argument, arg_name) == 0) {
                 /* Obtain value */
-                char *value = strtok_r(NULL, "=", &end_equal);
-                if (value) {
+                const char *value = equal + 1;
+                if (*value) {
                     snprintf(arg_value, arg_max_len, "%s", value);
                 } else {
                     warning("Bad format parsing of DLB_ARGS. Option %s with empty value", token);
-- 
2.43.0


From 84aeb28ef420a61b153d668c71fd6c6e1f960e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 025/136] fix: accept any white space between DLB_ARGS options

---
 src/support/options.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index b06bccf..e0eb703 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -762,13 +762,14 @@ static void copy_value(option_type_t type, void *dest, const char *src) {
 /* Parse DLB_ARGS and remove argument if found */
 static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value, size_t arg_max_len) {
     *arg_value = 0;
-    /* Tokenize a copy of dlb_args with " "(blank) delimiter */
+    /* Tokenize a copy of dlb_args with any white space as delimiter */
+    static const char delimiters[] = " \t\n\v\f\r";
     char *progress = dlb_args;
     char *end_space = NULL;
     size_t len = strlen(dlb_args) + 1;
     char *dlb_args_copy = malloc(sizeof(char)*len);
     strcpy(dlb_args_copy, dlb_args);
-    char *token = strtok_r(dlb_args_copy, " ", &end_space);
+    char *token = strtok_r(dlb_args_copy, delimiters, &end_space);
     while (token) {
         /* Each token is a complete string representing an option */
 
@@ -820,7 +821,7 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
         }
 
         /* next token */
-        token = strtok_r(NULL, " ", &end_space);
+        token = strtok_r(NULL, delimiters, &end_space);
     }
     free(dlb_args_copy);
 }
-- 
2.43.0


From d330583f37fd2a59de864e3b7cffd9acc7087158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 026/136] fix: do not truncate long lists of values in DLB_ARGS

---
 src/support/options.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index e0eb703..16a0c42 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -863,11 +863,11 @@ void options_init(options_t *options, const char *dlb_args) {
         /* Set-up specific argument length */
         size_t arg_max_len;
         switch (entry->type) {
-            case OPT_PTR_PATH_T:
-                arg_max_len = PATH_MAX-1;
+            case OPT_STR_T:
+                arg_max_len = MAX_OPTION_LENGTH;
                 break;
             default:
-                arg_max_len = MAX_OPTION_LENGTH-1;
+                arg_max_len = PATH_MAX;
                 break;
         }
 
@@ -1001,11 +1001,11 @@ void options_parse_entry(const char *var_name, void *option) {
         /* Set-up specific argument length */
         size_t arg_max_len;
         switch (entry->type) {
-            case OPT_PTR_PATH_T:
-                arg_max_len = PATH_MAX-1;
+            case OPT_STR_T:
+                arg_max_len = MAX_OPTION_LENGTH;
                 break;
             default:
-                arg_max_len = MAX_OPTION_LENGTH-1;
+                arg_max_len = PATH_MAX;
                 break;
         }
 
-- 
2.43.0


From e633b2ca48dd56cdabdf935d22e9090cbb72a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 027/136] fix: allocate enough space to print integer options

---
 src/support/options.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index 16a0c42..f7fff0c 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -621,14 +621,14 @@ static int set_value(option_type_t type, void *option, const char *str_value) {
 }
 
 static const char * get_value(option_type_t type, const void *option) {
-    static char int_value[8];
+    static char int_value[16];
     switch(type) {
         case OPT_BOOL_T:
             return *(bool*)option ? "yes" : "no";
         case OPT_NEG_BOOL_T:
             return *(bool*)option ? "no" : "yes";
         case OPT_INT_T:
-            sprintf(int_value, "%d", *(int*)option);
+            snprintf(int_value, sizeof(int_value), "%d", *(int*)option);
             return int_value;
         case OPT_STR_T:
             return (char*)option;
-- 
2.43.0


From d2e4a6001cab5550573c362f837903a13d914e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 028/136] fix: compare path options given in both DLB_Init and
 DLB_ARGS

---
 src/support/options.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index f7fff0c..0a7809f 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -673,8 +673,7 @@ static bool values_are_equivalent(option_type_t type, const char *value1, const
         case OPT_STR_T:
             return strcmp(value1, value2) == 0;
         case OPT_PTR_PATH_T:
-            return *(const char**)value1 && *(const char**)value2
-                && strcmp(*(const char**)value1, *(const char**)value2) == 0;
+            return strcmp(value1, value2) == 0;
         case OPT_VB_T:
             return equivalent_verbose_opts(value1, value2);
         case OPT_VBFMT_T:
-- 
2.43.0


From 314847cfe10e437e81c4b515c45bb0dbbd75e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 029/136] fix: reject integer options out of range

---
 src/support/types.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/support/types.c b/src/support/types.c
index 961747b..e64150d 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -77,9 +77,11 @@ bool equivalent_negated_bool(const char *str1, const char *str2) {
 
 int parse_int(const char *str, int *value) {
     char *endptr;
+    errno = 0;
     long val = strtol(str, &endptr, 0);
     if ((val == 0 && endptr == str)
-            || ((val == LONG_MIN || val == LONG_MAX) && errno == ERANGE)) {
+            || ((val == LONG_MIN || val == LONG_MAX) && errno == ERANGE)
+            || val < INT_MIN || val > INT_MAX) {
         debug_warning("Error parsing integer. str: %s, strlen: %lu, val: %ld, "
                 "errno: %d, strptr: %p, endptr: %p", str, strlen(str), val,
                 errno, str, endptr);
-- 
2.43.0


From 3c860b6c81d95a7524999beb81a07f748834b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 030/136] fix: do not return the previous text when an option
 has no values

---
 src/support/types.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/support/types.c b/src/support/types.c
index e64150d..39fdfa6 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -154,8 +154,9 @@ const char* verbose_opts_tostr(verbose_opts_t value) {
         return "all";
     }
 
-    static char str[sizeof(verbose_opts_choices_str)] = "";
+    static char str[sizeof(verbose_opts_choices_str)];
     char *p = str;
+    *p = '\0';
     int i;
     for (i=2; i<verbose_opts_nelems; ++i) {
         if (value & verbose_opts_values[i]) {
@@ -219,8 +220,9 @@ int parse_verbose_fmt(const char *str, verbose_fmt_t *value) {
 }
 
 const char* verbose_fmt_tostr(verbose_fmt_t value) {
-    static char str[sizeof(verbose_fmt_choices_str)] = "";
+    static char str[sizeof(verbose_fmt_choices_str)];
     char *p = str;
+    *p = '\0';
     int i;
     for (i=0; i<verbose_fmt_nelems; ++i) {
         if (value & verbose_fmt_values[i]) {
@@ -304,8 +306,9 @@ const char* instrument_items_tostr(instrument_items_t value) {
         return "all";
     }
 
-    static char str[sizeof(instrument_items_choices_str)] = "";
+    static char str[sizeof(instrument_items_choices_str)];
     char *p = str;
+    *p = '\0';
     int i;
     for (i=2; i<instrument_items_nelems; ++i) {
         if (value & instrument_items_values[i]) {
@@ -353,8 +356,9 @@ int parse_debug_opts(const char *str, debug_opts_t *value) {
 }
 
 const char* debug_opts_tostr(debug_opts_t value) {
-    static char str[sizeof(debug_opts_choices_str)] = "";
+    static char str[sizeof(debug_opts_choices_str)];
     char *p = str;
+    *p = '\0';
     int i;
     for (i=0; i<debug_opts_nelems; ++i) {
         if (value & debug_opts_values[i]) {
@@ -507,8 +511,9 @@ const char* talp_summary_tostr(talp_summary_t value) {
         return "all";
     }
 
-    static char str[sizeof(talp_summary_choices_str)] = "";
+    static char str[sizeof(talp_summary_choices_str)];
     char *p = str;
+    *p = '\0';
     int i;
     for (i=2; i<talp_summary_nelems; ++i) {
         if (value & talp_summary_values[i]) {
@@ -728,8 +733,9 @@ int parse_omptool_opts(const char *str, omptool_opts_t *value) {
 }
 
 const char* omptool_opts_tostr(omptool_opts_t value) {
-    static char str[sizeof(omptool_opts_choices_str)] = "";
+    static char str[sizeof(omptool_opts_choices_str)];
     char *p = str;
+    *p = '\0';
     int i;
     for (i=0; i<omptool_opts_nelems; ++i) {
         if (value & omptool_opts_values[i]) {
-- 
2.43.0


From 98a40bb0fef9ae830c3dd64876df0b55eff2b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 031/136] fix: allocate enough space to print all the TALP
 summaries

---
 src/support/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/support/types.c b/src/support/types.c
index 39fdfa6..feee93e 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -511,7 +511,8 @@ const char* talp_summary_tostr(talp_summary_t value) {
         return "all";
     }
 
-    static char str[sizeof(talp_summary_choices_str)];
+    /* the deprecated values are not listed in talp_summary_choices_str */
+    static char str[sizeof(talp_summary_choices_str) + sizeof("pop-raw:node:")];
     char *p = str;
     *p = '\0';
     int i;
-- 
2.43.0


From e9b595571ddfe1569b124d0fb6f0b3855a2e6c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 032/136] fix: do not abort when printing long option values

---
 src/support/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/options.c b/src/support/options.c
index 0a7809f..575374f 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -1080,7 +1080,7 @@ void options_print_variables(const options_t *options, bool print_extended) {
     printbuffer_init(&buffer);
 
     /* Set up intermediate buffer per entry */
-    enum { MAX_ENTRY_LEN = 256 };
+    enum { MAX_ENTRY_LEN = PATH_MAX + 512 };
     char entry_buffer[MAX_ENTRY_LEN];
 
     /* Header (last \n is not needed) */
-- 
2.43.0


From 89fcd5ba5a426b94e6e2e33276a006ae9a49b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 033/136] fix: grow the print buffer as much as needed

---
 src/support/debug.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/support/debug.c b/src/support/debug.c
index 32f6a2a..f6f9f1e 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -399,7 +399,9 @@ void printbuffer_append(print_buffer_t *buffer, const char *line) {
     size_t line_len = strlen(line) + 2; /* + '\n\0' */
     size_t buffer_len = strlen(buffer->addr);
     if (buffer_len + line_len > buffer->size) {
-        buffer->size *= 2;
+        while (buffer_len + line_len > buffer->size) {
+            buffer->size *= 2;
+        }
         void *p = realloc(buffer->addr, buffer->size*sizeof(char));
         if (p) {
             buffer->addr = p;
-- 
2.43.0


From feeae867a210ed96af689bddc7687c9b9bb3fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 034/136] fix: avoid infinite recursion when warning about the
 --silent option

---
 src/support/debug.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/support/debug.c b/src/support/debug.c
index f6f9f1e..91f0e0c 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -167,7 +167,10 @@ void fatal0(const char *fmt, ...) {
 static void vwarning(const char *fmt, va_list list) {
     /* Parse --silent option if warning() was invoked before init */
     if (unlikely(vb_opts == VB_UNDEF)) {
+        /* Parsing the option may also cause a warning, avoid a recursive call */
+        vb_opts = VB_CLEAR;
         options_parse_entry("--silent", &silent);
+        vb_opts = VB_UNDEF;
     }
 
     if (!silent) {
-- 
2.43.0


From 3b5f334581a0ede1fd212ac435818f2e309c165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:20 +0000
Subject: [PATCH 035/136] fix: node load balance is not NaN when there is no
 useful time

---
 src/support/perf_metrics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/support/perf_metrics.h b/src/support/perf_metrics.h
index 8ae6a8f..a38ed05 100644
--- a/src/support/perf_metrics.h
+++ b/src/support/perf_metrics.h
@@ -77,7 +77,8 @@ static inline void perf_metrics__infer_mpi_model(
         *metrics = (const perf_metrics_mpi_t) {
             .parallel_efficiency = (float)node_sum_useful / (node_sum_useful + node_sum_mpi),
             .communication_efficiency = (float)max_useful_time / elapsed_time,
-            .load_balance = ((float)node_sum_useful / processes_per_node) / max_useful_time,
+            .load_balance = max_useful_time > 0
+                ? ((float)node_sum_useful / processes_per_node) / max_useful_time : 0.0f,
         };
     } else {
         *metrics = (const perf_metrics_mpi_t) {};
-- 
2.43.0


From 9ccaf135c280697dc41e88402354091cf2f1ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 036/136] fix: do not shrink an existing shared memory when
 attaching to it

---
 src/LB_comm/shmem.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 9b37f5a..a7a92a9 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -156,8 +156,14 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("shm_open error: %s", strerror(errno));
     }
 
-    /* Truncate the regular file to a precise size */
-    if (ftruncate(fd, handler->shm_size) == -1) {
+    /* Grow the regular file up to the needed size. An existing shared memory must
+     * never be shrunk since other processes may be using it. */
+    struct stat shm_stat;
+    if (fstat(fd, &shm_stat) == -1) {
+        fatal("fstat error: %s", strerror(errno));
+    }
+    if ((size_t)shm_stat.st_size < handler->shm_size
+            && ftruncate(fd, handler->shm_size) == -1) {
         fatal("ftruncate error: %s", strerror(errno));
     }
 
-- 
2.43.0


From b04935f3a4a65c08855348495b8d1e390ef7e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 037/136] fix: close the file descriptor of the shared memory
 once mapped

---
 src/LB_comm/shmem.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index a7a92a9..a78b39e 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -173,6 +173,9 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("mmap error: %s",  strerror(errno));
     }
 
+    /* The mapping does not need the file descriptor */
+    close(fd);
+
     /* Set the address for both structs */
     handler->shsync = (shmem_sync_t*) handler->shm_addr;
     *shdata = handler->shm_addr + shsync_size;
-- 
2.43.0


From 68837cb1a3110642531ea487df3afaf4eecd12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 038/136] fix: external processes open the TALP shared memory
 with its actual size

---
 src/LB_comm/shmem_talp.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 0745601..a0eb8e5 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -96,11 +96,11 @@ static bool is_shmem_empty(void) {
     return true;
 }
 
-static void open_shmem(const char *shmem_key, int shmem_size_multiplier) {
+static void open_shmem(const char *shmem_key, int num_max_regions) {
     pthread_mutex_lock(&mutex);
     {
         if (shm_handler == NULL) {
-            max_regions = mu_get_system_size() * shmem_size_multiplier;
+            max_regions = num_max_regions;
             shm_handler = shmem_init((void**)&shdata,
                     &(const shmem_props_t) {
                         .size = shmem_talp__size(),
@@ -133,7 +133,7 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
     int error = DLB_SUCCESS;
 
     // Shared memory creation
-    open_shmem(shmem_key, shmem_size_multiplier);
+    open_shmem(shmem_key, mu_get_system_size() * shmem_size_multiplier);
 
     shmem_lock(shm_handler);
     {
@@ -168,9 +168,17 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
 
 int shmem_talp_ext__init(const char *shmem_key, int shmem_size_multiplier) {
     // Shared memory creation
-    open_shmem(shmem_key, shmem_size_multiplier);
+    open_shmem(shmem_key, mu_get_system_size() * shmem_size_multiplier);
 
-    // External processes don't need to initialize anything
+    // External processes don't need to initialize anything, but they need to
+    // open the shared memory with the size set by the process that initialized it
+    shmem_lock(shm_handler);
+    int existing_max_regions = shdata->initialized ? shdata->max_regions : max_regions;
+    shmem_unlock(shm_handler);
+    if (existing_max_regions != max_regions) {
+        close_shmem();
+        open_shmem(shmem_key, existing_max_regions);
+    }
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 7281953e6db10b0b5153a5eeea640cf393f8385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 039/136] fix: external processes use the default size of the
 TALP shared memory

---
 src/LB_comm/shmem_talp.h      | 3 +++
 src/LB_core/DLB_kernel.c      | 3 ++-
 src/LB_core/DLB_talp.c        | 1 -
 src/apis/DLB_interface_talp.c | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_talp.h b/src/LB_comm/shmem_talp.h
index 2aa78c1..18228ed 100644
--- a/src/LB_comm/shmem_talp.h
+++ b/src/LB_comm/shmem_talp.h
@@ -24,6 +24,9 @@
 #include <stdbool.h>
 #include <stdint.h>
 
+/* Default number of regions per process when the shmem is not minimal */
+enum { DEFAULT_REGIONS_PER_PROC = 100 };
+
 typedef struct talp_region_list_t {
     pid_t pid;
     int region_id;
diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 2b23cc7..ebe55ef 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -807,7 +807,8 @@ int print_shmem(subprocess_descriptor_t *spd, int num_columns,
             num_columns, print_flags);
     shmem_procinfo__print_info(spd->options.shm_key);
     shmem_barrier__print_info(spd->options.shm_key);
-    shmem_talp__print_info(spd->options.shm_key, spd->options.shm_size_multiplier);
+    shmem_talp__print_info(spd->options.shm_key,
+            spd->options.shm_size_multiplier * DEFAULT_REGIONS_PER_PROC);
 
     if (!spd->dlb_initialized) {
         options_finalize(&spd->options);
diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 63905c1..2e75fcd 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -615,7 +615,6 @@ void talp_init(subprocess_descriptor_t *spd) {
          * multiplier times 'system_size' (usually, 1 region per process)
          * Otherwise, we multiply it by DEFAULT_REGIONS_PER_PROC.
          */
-        enum { DEFAULT_REGIONS_PER_PROC = 100 };
         int shmem_size_multiplier = spd->options.shm_size_multiplier
             * (talp_info->flags.have_shmem ? DEFAULT_REGIONS_PER_PROC : 1);
         shmem_talp__init(spd->options.shm_key, shmem_size_multiplier);
diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index 2c89d59..a3fe98b 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -57,7 +57,7 @@ int DLB_TALP_Attach(void) {
     }
     shmem_cpuinfo_ext__init(shm_key_ptr, lewi_color);
     shmem_procinfo_ext__init(shm_key_ptr);
-    shmem_talp_ext__init(shm_key_ptr, shm_size_multiplier);
+    shmem_talp_ext__init(shm_key_ptr, shm_size_multiplier * DEFAULT_REGIONS_PER_PROC);
     return DLB_SUCCESS;
 }
 
-- 
2.43.0


From 97221bdc3552bc331612db9dd03e94799d923a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 040/136] fix: reuse the TALP regions of finalized processes

---
 src/LB_comm/shmem_talp.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index a0eb8e5..4229d35 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -234,9 +234,11 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
     int error;
     shmem_lock(shm_handler);
     {
-        /* Regions cannot be removed from shmem_talp.
-         * Search is linear, and append if not found. */
+        /* Regions are only removed from shmem_talp when the process finalizes.
+         * Search is linear, use the first spot of a finalized process or append
+         * if not found. */
         int region_id;
+        int empty_id = -1;
         int num_regions = shdata->num_regions;
         for (region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
@@ -245,6 +247,9 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
                 /* Region was already registered */
                 break;
             }
+            if (empty_id < 0 && talp_region->pid == NOBODY) {
+                empty_id = region_id;
+            }
         }
 
         if (region_id < num_regions) {
@@ -252,9 +257,13 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
             *node_shared_id = region_id;
             error = DLB_NOUPDT;
         } else {
-            if (num_regions < max_regions) {
-                /* Register new region (region_id points to empty spot) */
+            if (empty_id < 0 && num_regions < max_regions) {
+                empty_id = num_regions;
                 ++shdata->num_regions;
+            }
+            if (empty_id >= 0) {
+                /* Register new region (region_id points to empty spot) */
+                region_id = empty_id;
                 talp_region_t *empty_spot = &shdata->talp_region[region_id];
                 *empty_spot = (const talp_region_t) {.pid = pid, .avg_cpus = avg_cpus};
                 snprintf(empty_spot->name, DLB_MONITOR_NAME_MAX, "%s", name);
-- 
2.43.0


From d3252f0861ba38bfb81af218ba4fb3baf3f42765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:53 +0000
Subject: [PATCH 041/136] fix: do not remove TALP regions while other processes
 collect node metrics

---
 src/LB_core/DLB_talp.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 2e75fcd..cc8326e 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2253,7 +2253,15 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
 
     /* Remove shared memory if it was a temporary one */
     if (!talp_info->flags.have_shmem) {
-        shmem_talp__finalize(spd->id);
+        /* Everyone must have computed their metrics before removing any region */
+        node_barrier(spd, NULL);
+
+        if (talp_info->flags.have_minimal_shmem) {
+            /* The minimal shmem is still needed until TALP finalizes */
+            shmem_talp_ext__finalize();
+        } else {
+            shmem_talp__finalize(spd->id);
+        }
     }
 
     /* Resume monitor */
-- 
2.43.0


From a04e39a442d6fb1499c700885e8d77efe5c2099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:35 +0000
Subject: [PATCH 042/136] fix: register each monitoring region only once

---
 src/LB_core/DLB_talp.c | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index cc8326e..8552fa1 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -232,7 +232,6 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
     talp_info_t *talp_info = spd->talp_info;
     if (talp_info == NULL) return NULL;
 
-    dlb_monitor_t *monitor = NULL;
     bool anonymous_region = (name == NULL || *name == '\0');
     bool global_region = !anonymous_region && name == global_region_name;
 
@@ -245,17 +244,24 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
         global_region = true;
     }
 
+    /* Look up and insert atomically, other threads may be registering regions */
+    pthread_mutex_lock(&talp_info->regions_mutex);
+
+    /* Construct an unused name if anonymous region */
+    char monitor_name[DLB_MONITOR_NAME_MAX];
+    if (anonymous_region) {
+        do {
+            snprintf(monitor_name, DLB_MONITOR_NAME_MAX, "Anonymous Region %d",
+                    get_new_anonymous_id());
+        } while (g_tree_lookup(talp_info->regions, monitor_name) != NULL);
+        name = monitor_name;
+    }
+
     /* Found monitor if already registered */
-    if (!anonymous_region) {
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
-            monitor = g_tree_lookup(talp_info->regions, name);
-        }
+    dlb_monitor_t *monitor = g_tree_lookup(talp_info->regions, name);
+    if (monitor != NULL) {
         pthread_mutex_unlock(&talp_info->regions_mutex);
-
-        if (monitor != NULL) {
-            return monitor;
-        }
+        return monitor;
     }
 
     /* Otherwise, create new monitoring region */
@@ -266,14 +272,6 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
     /* Determine the initial number of assigned CPUs for the region */
     float avg_cpus = CPU_COUNT(&spd->process_mask);
 
-    /* Construct name if anonymous region */
-    char monitor_name[DLB_MONITOR_NAME_MAX];
-    if (anonymous_region) {
-        snprintf(monitor_name, DLB_MONITOR_NAME_MAX, "Anonymous Region %d",
-                get_new_anonymous_id());
-        name = monitor_name;
-    }
-
     /* Initialize values */
     bool have_shmem = talp_info->flags.have_shmem
         || (talp_info->flags.have_minimal_shmem && global_region);
@@ -281,10 +279,8 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
             spd->id, avg_cpus, spd->options.talp_region_select, have_shmem);
 
     /* Finally, insert */
-    pthread_mutex_lock(&talp_info->regions_mutex);
-    {
-        g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
-    }
+    g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
+
     pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return monitor;
-- 
2.43.0


From b5fbb204115aeaa6bf4a873b8574a15825c8c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:35 +0000
Subject: [PATCH 043/136] fix: a region that is reset while open is no longer
 updated

---
 src/LB_core/DLB_talp.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 8552fa1..9f69bcd 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -287,20 +287,29 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
 }
 
 int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *monitor) {
+    talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
-        talp_info_t *talp_info = spd->talp_info;
         monitor = talp_info->monitor;
     }
 
-    /* Reset everything except these fields: */
-    *monitor = (const dlb_monitor_t) {
-        .name = monitor->name,
-        .num_resets = monitor->num_resets + 1,
-        ._data = monitor->_data,
-    };
-
     monitor_data_t *monitor_data = monitor->_data;
-    monitor_data->flags.started = false;
+
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        /* Reset everything except these fields: */
+        *monitor = (const dlb_monitor_t) {
+            .name = monitor->name,
+            .num_resets = monitor->num_resets + 1,
+            ._data = monitor->_data,
+        };
+
+        /* A region that was open is no longer started */
+        if (monitor_data->flags.started) {
+            monitor_data->flags.started = false;
+            talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+        }
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 0ea94d77835bb52b1ff2b58869cdfd566f22ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:35 +0000
Subject: [PATCH 044/136] fix: start and stop times of a region when the thread
 has no sample yet

---
 src/LB_core/DLB_talp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 9f69bcd..c7db530 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -327,6 +327,9 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
     monitor_data_t *monitor_data = monitor->_data;
 
     if (!monitor_data->flags.started && monitor_data->flags.enabled) {
+        /* Make sure that this thread has a sample before updating all of them */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
@@ -334,7 +337,6 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
 
         /* Thread sample was just updated, use timestamp as starting time */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
         monitor->start_time = thread_sample->last_updated_timestamp;
         monitor->stop_time = 0;
 
@@ -379,11 +381,13 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
     monitor_data_t *monitor_data = monitor->_data;
 
     if (monitor_data->flags.started) {
+        /* Make sure that this thread has a sample before updating all of them */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
         /* Stop timer */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
         monitor->stop_time = thread_sample->last_updated_timestamp;
         monitor->elapsed_time += monitor->stop_time - monitor->start_time;
         ++(monitor->num_measurements);
-- 
2.43.0


From d5b60b33101d07f9e6fd2fb960adc81dc9e60211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:35 +0000
Subject: [PATCH 045/136] fix: do not use the samples of a nested parallel
 region once freed

---
 src/LB_core/DLB_talp.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index c7db530..ebcaba8 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1986,10 +1986,6 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
             talp_aggregate_samples_parallel(spd,
                     &parallel_samples[1],
                     parallel_data->actual_parallelism-1);
-
-            /* free local data */
-            free(parallel_data->talp_parallel_data);
-            parallel_data->talp_parallel_data = NULL;
         }
 
         /* Update current threads's state */
@@ -2005,6 +2001,12 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                 worker_sample->state = not_useful_omp_out;
             }
         }
+
+        /* Free local data of nested parallel regions */
+        if (parallel_data->level > 1) {
+            free(parallel_data->talp_parallel_data);
+            parallel_data->talp_parallel_data = NULL;
+        }
     }
 }
 
-- 
2.43.0


From 9aab0c71200324731f450f287491d69ec29d8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:51 +0000
Subject: [PATCH 046/136] fix: initialize the TALP sample of a thread before
 publishing it

---
 src/LB_core/DLB_talp.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index ebcaba8..7666cf7 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -746,8 +746,24 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
 
-    /* Otherwise, allocate */
     talp_info_t *talp_info = spd->talp_info;
+
+    /* If a thread is created mid-region, its initial time is that of the
+     * innermost open region, otherwise it is the current time */
+    int64_t last_updated_timestamp;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (talp_info->open_regions) {
+            const dlb_monitor_t *monitor = talp_info->open_regions->data;
+            last_updated_timestamp = monitor->start_time;
+        } else {
+            last_updated_timestamp = get_time_in_ns();
+        }
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
+
+    /* Otherwise, allocate. The sample must be initialized before the mutex is
+     * released since any other thread may aggregate it. */
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         int ncpus = ++talp_info->ncpus;
@@ -757,6 +773,10 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
             void *new_sample;
             if (posix_memalign(&new_sample, DLB_CACHE_LINE, sizeof(talp_sample_t)) == 0) {
                 _tls_sample = new_sample;
+                *_tls_sample = (const talp_sample_t) {
+                    .last_updated_timestamp = last_updated_timestamp,
+                    .state = disabled,
+                };
                 talp_info->samples[ncpus-1] = new_sample;
             }
         }
@@ -765,20 +785,6 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 
     fatal_cond(_tls_sample == NULL, "TALP: could not allocate thread sample");
 
-    /* If a thread is created mid-region, its initial time is that of the
-     * innermost open region, otherwise it is the current time */
-    int64_t last_updated_timestamp;
-    if (talp_info->open_regions) {
-        const dlb_monitor_t *monitor = talp_info->open_regions->data;
-        last_updated_timestamp = monitor->start_time;
-    } else {
-        last_updated_timestamp = get_time_in_ns();
-    }
-
-    *_tls_sample = (const talp_sample_t) {
-        .last_updated_timestamp = last_updated_timestamp,
-    };
-
     set_sample_state(_tls_sample, disabled, talp_info->flags.papi);
 
 #ifdef INSTRUMENTATION_VERSION
-- 
2.43.0


From 7bf91a9ded0cafdd16e4ae61b9b0861002029187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:41 +0000
Subject: [PATCH 047/136] fix: account OpenMP worksharing barriers as
 synchronisation

OMPT 5.1 runtimes report the implicit barrier of a worksharing construct as
ompt_sync_region_barrier_implicit_workshare, which was ignored, so TALP
counted the waiting time as useful.
---
 src/LB_numThreads/omptool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_numThreads/omptool.c b/src/LB_numThreads/omptool.c
index 010631c..4db99da 100644
--- a/src/LB_numThreads/omptool.c
+++ b/src/LB_numThreads/omptool.c
@@ -319,6 +319,8 @@ static void omptool_callback__sync_region(
                 break;
             case ompt_sync_region_barrier_explicit:
                 DLB_FALLTHROUGH;
+            case ompt_sync_region_barrier_implicit_workshare:
+                DLB_FALLTHROUGH;
             case ompt_sync_region_taskwait:
                 DLB_FALLTHROUGH;
             case ompt_sync_region_taskgroup:
-- 
2.43.0


From c714adb271131820a490cf220238b38e967009ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:36 +0000
Subject: [PATCH 048/136] fix: discard thread samples of a finalized TALP

Threads other than the one finalizing kept a pointer to a sample that no
longer belonged to any process, so their time was lost after a second
DLB_Init. The samples themselves were also leaked.
---
 src/LB_core/DLB_talp.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 7666cf7..4326d08 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -721,6 +721,11 @@ void talp_finalize(subprocess_descriptor_t *spd) {
 
 static __thread talp_sample_t* _tls_sample = NULL;
 
+/* Samples are deallocated when TALP is finalized. The generation tells whether
+ * the sample of this thread was allocated after the last deallocation. */
+static atomic_uint samples_generation = 0;
+static __thread unsigned int _tls_sample_generation = 0;
+
 /* WARNING: this function may only be called when updating own thread's sample */
 static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_state state,
         bool papi) {
@@ -741,7 +746,9 @@ static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_stat
 /* Get the TLS associated sample */
 static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated sample, return it */
-    if (likely(_tls_sample != NULL)) return _tls_sample;
+    unsigned int generation = DLB_ATOMIC_LD_RLX(&samples_generation);
+    if (likely(_tls_sample != NULL
+                && _tls_sample_generation == generation)) return _tls_sample;
 
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
@@ -764,6 +771,8 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 
     /* Otherwise, allocate. The sample must be initialized before the mutex is
      * released since any other thread may aggregate it. */
+    _tls_sample = NULL;
+    _tls_sample_generation = generation;
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         int ncpus = ++talp_info->ncpus;
@@ -797,14 +806,20 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 }
 
 static void talp_dealloc_samples(const subprocess_descriptor_t *spd) {
-    /* This only nullifies the current thread pointer, but this function is
-     * only really important when TALP is finalized and then initialized again
+    /* Threads still hold a pointer to their sample, invalidate all of them.
+     * This is only really important when TALP is finalized and then initialized
+     * again.
      */
+    DLB_ATOMIC_ADD_RLX(&samples_generation, 1);
     _tls_sample = NULL;
 
     talp_info_t *talp_info = spd->talp_info;
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
+        for (int i = 0; i < talp_info->ncpus; ++i) {
+            free(talp_info->samples[i]);
+        }
+        talp_info->ncpus = 0;
         free(talp_info->samples);
         talp_info->samples = NULL;
     }
-- 
2.43.0


From 2c09681a8d4e2dd2e0d0ee9d43e0c8ffd7fdaf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 049/136] fix: write region names and CSV rows of TALP reports
 correctly

Region names are arbitrary strings, but they were written verbatim to JSON,
XML and CSV files. Besides, the process CSV had no separator after the number
of CPUs and no newline after each row.
---
 src/support/talp_output.c | 72 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 9 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index 2ef4173..73e549c 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -47,6 +47,54 @@ static float sanitized_ipc(float instructions, float cycles) {
     }
 }
 
+/* Maximum length of a region name once escaped, the longest sequence
+ * replacing a character has 6 bytes in all formats */
+enum { ESCAPED_NAME_MAX = DLB_MONITOR_NAME_MAX * 6 };
+
+/* Region names are arbitrary strings, escape the ones with a special meaning */
+static const char* escape_json(char *buffer, const char *name) {
+    char *b = buffer;
+    for (const unsigned char *c = (const unsigned char*)name; *c != '\0'; ++c) {
+        if (*c == '"' || *c == '\\') {
+            *b++ = '\\';
+            *b++ = *c;
+        } else if (*c < 0x20) {
+            b += sprintf(b, "\\u%04x", *c);
+        } else {
+            *b++ = *c;
+        }
+    }
+    *b = '\0';
+    return buffer;
+}
+
+static const char* escape_xml(char *buffer, const char *name) {
+    char *b = buffer;
+    for (const char *c = name; *c != '\0'; ++c) {
+        switch (*c) {
+            case '&':   b += sprintf(b, "&amp;");   break;
+            case '<':   b += sprintf(b, "&lt;");    break;
+            case '>':   b += sprintf(b, "&gt;");    break;
+            case '\r':  b += sprintf(b, "&#13;");   break;
+            default:    *b++ = *c;
+        }
+    }
+    *b = '\0';
+    return buffer;
+}
+
+static const char* escape_csv(char *buffer, const char *name) {
+    char *b = buffer;
+    for (const char *c = name; *c != '\0'; ++c) {
+        if (*c == '"') {
+            *b++ = '"';
+        }
+        *b++ = *c;
+    }
+    *b = '\0';
+    return buffer;
+}
+
 
 /*********************************************************************************/
 /*    Monitoring Region                                                          */
@@ -174,6 +222,7 @@ static void pop_metrics_to_json(FILE *out_file) {
                 node = node->next) {
 
             dlb_pop_metrics_t *record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
             fprintf(out_file,
                     "    \"%s\": {\n"
@@ -209,7 +258,7 @@ static void pop_metrics_to_json(FILE *out_file) {
                     "      \"ompSchedulingEfficiency\": %.2f,\n"
                     "      \"ompSerializationEfficiency\": %.2f\n"
                     "    }%s\n",
-                    record->name,
+                    escape_json(name, record->name),
                     record->num_cpus,
                     record->num_mpi_ranks,
                     record->num_nodes,
@@ -255,6 +304,7 @@ static void pop_metrics_to_xml(FILE *out_file) {
             node = node->next) {
 
         dlb_pop_metrics_t *record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         fprintf(out_file,
                 "  <Application>\n"
@@ -291,7 +341,7 @@ static void pop_metrics_to_xml(FILE *out_file) {
                 "    <ompSchedulingEfficiency>%.2f</ompSchedulingEfficiency>\n"
                 "    <ompSerializationEfficiency>%.2f</ompSerializationEfficiency>\n"
                 "  </Application>\n",
-                record->name,
+                escape_xml(name, record->name),
                 record->num_cpus,
                 record->num_mpi_ranks,
                 record->num_nodes,
@@ -461,6 +511,7 @@ static void pop_metrics_to_csv(FILE *out_file, bool append) {
             node = node->next) {
 
         dlb_pop_metrics_t *record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         fprintf(out_file,
                 "\"%s\","    /* name */
@@ -495,7 +546,7 @@ static void pop_metrics_to_csv(FILE *out_file, bool append) {
                 "%.2f,"      /* ompLoadBalance */
                 "%.2f,"      /* ompSchedulingEfficiency */
                 "%.2f\n",    /* ompSerializationEfficiency */
-                record->name,
+                escape_csv(name, record->name),
                 record->num_cpus,
                 record->num_mpi_ranks,
                 record->num_nodes,
@@ -930,10 +981,11 @@ static void process_to_json(FILE *out_file) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         fprintf(out_file,
                 "    \"%s\": [\n",
-                region_record->name);
+                escape_json(name, region_record->name));
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
@@ -999,11 +1051,12 @@ static void process_to_xml(FILE *out_file) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         fprintf(out_file,
                 "  <Process>\n"
                 "    <name>%s</name>\n",
-                region_record->name);
+                escape_xml(name, region_record->name));
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
@@ -1093,19 +1146,20 @@ static void process_to_csv(FILE *out_file, bool append) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        char name[ESCAPED_NAME_MAX];
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
             process_record_t *process_record = &region_record->process_records[i];
 
             fprintf(out_file,
-                    "%s,"           /* Region */
+                    "\"%s\","       /* Region */
                     "%d,"           /* Rank */
                     "%d,"           /* PID */
                     "%d,"           /* NodeId */
                     "%s,"           /* Hostname */
                     "%s,"           /* CpuSet */
-                    "%d"            /* NumCpus */
+                    "%d,"           /* NumCpus */
                     "%.1f,"         /* AvgCpus */
                     "%"PRId64","    /* Cycles */
                     "%"PRId64","    /* Instructions */
@@ -1119,8 +1173,8 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%"PRId64","    /* MPITime */
                     "%"PRId64","    /* OMPLoadImbalance */
                     "%"PRId64","    /* OMPSchedulingTime */
-                    "%"PRId64",",   /* OMPSerializationTime */
-                    region_record->name,
+                    "%"PRId64"\n",  /* OMPSerializationTime */
+                    escape_csv(name, region_record->name),
                     process_record->rank,
                     process_record->pid,
                     process_record->node_id,
-- 
2.43.0


From e6ba449daf12124b8ed60d23aed1f517fa3f1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:00 +0000
Subject: [PATCH 050/136] fix: restore the locale of the thread after writing
 TALP reports

When there was nothing to write, the thread kept the C locale and the common
record was leaked. Otherwise the locale of the thread was replaced by the
global one, and the C locale was freed while in use. The split CSV file names
were leaked and a later report could show resources of a previous one.
---
 src/support/talp_output.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index 73e549c..e6b3f20 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1496,22 +1496,19 @@ void talp_output_finalize(const char *output_file) {
 
     /* If the process has changed the locale, temporarily push the C locale to
      * print floats with the expected notation (a comma as a decimal separator
-     * will break CSV and JSON files). The object associated with the locale
-     * can be safely freed after it has been set. */
-    locale_t new_locale = newlocale(LC_ALL, "C", 0);
-    uselocale(new_locale);
-    freelocale(new_locale);
+     * will break CSV and JSON files). */
+    locale_t new_locale = newlocale(LC_ALL_MASK, "C", 0);
+    locale_t old_locale = uselocale(new_locale);
 
     if (output_file == NULL) {
         /* No output file, just print all records */
         pop_metrics_print();
         node_print();
         process_print();
-    } else {
-        /* Do not open file if process has no data */
-        if (pop_metrics_records == NULL
-                && node_records == NULL
-                && region_records == NULL) return;
+    } else if (pop_metrics_records != NULL
+            || node_records != NULL
+            || region_records != NULL) {
+        /* The file is only opened if process has data */
 
         /* Check file extension */
         typedef enum Extension {
@@ -1568,6 +1565,7 @@ void talp_output_finalize(const char *output_file) {
                     pop_metrics_to_csv(pop_file, append_to_csv);
                     fclose(pop_file);
                 }
+                free(pop_filename);
             }
 
             /* Node */
@@ -1591,6 +1589,7 @@ void talp_output_finalize(const char *output_file) {
                     node_to_csv(node_file, append_to_csv);
                     fclose(node_file);
                 }
+                free(node_filename);
             }
 
             /* Process */
@@ -1614,6 +1613,7 @@ void talp_output_finalize(const char *output_file) {
                     process_to_csv(process_file, append_to_csv);
                     fclose(process_file);
                 }
+                free(process_filename);
             }
         }
 
@@ -1674,11 +1674,13 @@ void talp_output_finalize(const char *output_file) {
     }
 
     // Restore locale
-    uselocale(LC_GLOBAL_LOCALE);
+    uselocale(old_locale);
+    freelocale(new_locale);
 
     // De-allocate all records
     common_finalize();
     pop_metrics_finalize();
     node_finalize();
     process_finalize();
+    resources_record = (const talp_resources_record_t) {0};
 }
-- 
2.43.0


From 276de1152d9d99abb3d071581daceb55131ce64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:05 +0000
Subject: [PATCH 051/136] fix: do not register the same process twice in DROM

---
 src/LB_comm/shmem_procinfo.c | 48 +++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e990399..b465c5a 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -292,11 +292,6 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                 /* This process is already registered */
                 error = DLB_ERR_INIT;
             }
-            if (empty_spot
-                    && ((preinit_pid && preinit_process) || !preinit_pid)) {
-                /* Everything needed is found */
-                break;
-            }
         }
 
         // If it's a new process, initialize structure
@@ -492,38 +487,41 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
     pinfo_t *process = NULL;
     shmem_lock(shm_handler);
     {
+        // Find an empty spot, unless the PID is already registered
         int p;
         for (p = 0; p < max_processes; p++) {
             if (shdata->process_info[p].pid == pid) {
                 // PID already registered
                 error = DLB_ERR_INIT;
                 break;
-            } else if (shdata->process_info[p].pid == NOBODY) {
+            } else if (process == NULL
+                    && shdata->process_info[p].pid == NOBODY) {
                 process = &shdata->process_info[p];
-                *process = (const pinfo_t){
-                    .pid = pid,
-                    .preregistered = true};
-
-                // Register process mask into the system
-                if (!steal) {
-                    // If no stealing, register as usual
-                    error = register_mask(process, mask);
-                } else {
-                    // Otherwise, steal CPUs if necessary
-                    error = set_new_mask(process, mask, sync, return_stolen, NULL);
-                }
-                if (error) {
-                    // Release shared memory spot
-                    process->pid = NOBODY;
-                    break;
-                }
+            }
+        }
+
+        if (!error && process != NULL) {
+            *process = (const pinfo_t){
+                .pid = pid,
+                .preregistered = true};
+
+            // Register process mask into the system
+            if (!steal) {
+                // If no stealing, register as usual
+                error = register_mask(process, mask);
+            } else {
+                // Otherwise, steal CPUs if necessary
+                error = set_new_mask(process, mask, sync, return_stolen, NULL);
+            }
 
+            if (error) {
+                // Release shared memory spot
+                process->pid = NOBODY;
+            } else {
                 // Set process initial values
                 memcpy(&process->current_process_mask, mask, sizeof(cpu_set_t));
                 memcpy(&process->future_process_mask, mask, sizeof(cpu_set_t));
                 process->dirty = false;
-
-                break;
             }
         }
     }
-- 
2.43.0


From 562148ddcdfac6f820657773100621e8f2962306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:05 +0000
Subject: [PATCH 052/136] fix: do not free stolen CPUs when a process sets its
 pending mask

---
 src/LB_comm/shmem_procinfo.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index b465c5a..eef3cdd 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -831,8 +831,12 @@ static int shmem_procinfo__setprocessmask_self(const cpu_set_t *mask, dlb_drom_f
     pinfo_t *process = my_pinfo;
     shmem_lock(shm_handler);
     {
-        if (!process->dirty || CPU_EQUAL(mask, &process->future_process_mask)) {
+        if (!process->dirty) {
             error = set_new_mask(process, mask, false /* sync */, return_stolen, free_cpu_mask);
+        } else if (CPU_EQUAL(mask, &process->future_process_mask)) {
+            /* The pending mask is already registered, there is nothing to steal or free */
+            error = DLB_SUCCESS;
+            if (free_cpu_mask != NULL) CPU_ZERO(free_cpu_mask);
         } else {
             error = DLB_ERR_PDIRTY;
         }
-- 
2.43.0


From 788257b535be3c4a2f147d6d07b94985c269ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 053/136] fix: release CPUs stolen by DROM when LeWI is
 disabled

---
 src/LB_comm/shmem_cpuinfo.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index f2b9389..4dfe716 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1702,13 +1702,15 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
     update_occupied_cores(cpuinfo->owner, cpuinfo->id);
 
     // current subprocess to disable cpu
-    array_cpuinfo_task_t_push(
-            tasks,
-            (const cpuinfo_task_t) {
-                .action = DISABLE_CPU,
-                .pid = pid,
-                .cpuid = cpuid,
-            });
+    if (tasks) {
+        array_cpuinfo_task_t_push(
+                tasks,
+                (const cpuinfo_task_t) {
+                    .action = DISABLE_CPU,
+                    .pid = pid,
+                    .cpuid = cpuid,
+                });
+    }
 
     return DLB_SUCCESS;
 }
@@ -2065,15 +2067,8 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
             } else {
                 if (cpuinfo->guest == pid
                         && cpuinfo->state == CPU_BUSY) {
-                    /* 'tasks' may be NULL if LeWI is disabled, but if the process
-                     * is guesting an external CPU, LeWI should be enabled */
-                    if (unlikely(tasks == NULL)) {
-                        shmem_unlock(shm_handler);
-                        fatal("tasks pointer is NULL in %s. Please report bug at %s",
-                                __func__, PACKAGE_BUGREPORT);
-                    }
                     // The CPU has been either stolen or reclaimed,
-                    // return it anyway
+                    // return it anyway ('tasks' may be NULL if LeWI is disabled)
                     return_cpu(pid, cpuid, tasks);
                 }
             }
-- 
2.43.0


From 7c4c7ebf0d77760aca4d4856d47279f265324d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 054/136] fix: give CPUs back to their owners when a
 synchronous DROM operation fails

---
 src/LB_comm/shmem_procinfo.c | 76 ++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index eef3cdd..e744cd2 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -515,8 +515,10 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
             }
 
             if (error) {
-                // Release shared memory spot
-                process->pid = NOBODY;
+                // Release shared memory spot, if it has not been released already
+                if (process->pid == pid) {
+                    process->pid = NOBODY;
+                }
             } else {
                 // Set process initial values
                 memcpy(&process->current_process_mask, mask, sizeof(cpu_set_t));
@@ -1374,14 +1376,27 @@ static void update_process_loads(void) {
 #endif
 
 
-// Steal every CPU in mask from other processes
-static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool dry_run) {
+// CPUs stolen from a process during a synchronous operation
+typedef struct {
+    pid_t pid;
+    cpu_set_t cpus;
+} stolen_cpus_t;
+
+// Steal every CPU in mask from other processes. If the operation is synchronous, the
+// CPUs in cpus_to_acquire need to be still free once the CPUs are stolen
+static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask,
+        const cpu_set_t *cpus_to_acquire, bool sync, bool dry_run) {
     // Return if empty mask
     if (CPU_COUNT(mask) == 0) return DLB_SUCCESS;
 
     int error = DLB_SUCCESS;
+    pid_t new_owner_pid = new_owner->pid;
     cpu_set_t cpus_left_to_steal;
     memcpy(&cpus_left_to_steal, mask, sizeof(cpu_set_t));
+    stolen_cpus_t *stolen = NULL;
+    if (sync && !dry_run) {
+        stolen = calloc(max_processes, sizeof(stolen_cpus_t));
+    }
 
     // Iterate per process, steal in batch
     int p;
@@ -1399,6 +1414,10 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
                         mu_substract(&victim->future_process_mask,
                                 &victim->current_process_mask, &target_cpus);
                         CPU_OR(&victim->stolen_cpus, &victim->stolen_cpus, &target_cpus);
+                        if (stolen) {
+                            stolen[p].pid = victim->pid;
+                            memcpy(&stolen[p].cpus, &target_cpus, sizeof(cpu_set_t));
+                        }
                         verbose(VB_DROM, "CPUs %s have been removed from process %d",
                                 mu_to_str(mask), victim->pid);
                     }
@@ -1462,6 +1481,16 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         } while (!done && error == DLB_SUCCESS);
 
         shmem_lock(shm_handler);
+
+        if (new_owner->pid != new_owner_pid) {
+            // The process has been finalized meanwhile
+            error = DLB_ERR_NOPROC;
+        }
+
+        if (!error && !mu_is_subset(cpus_to_acquire, &shdata->free_mask)) {
+            // Some other process has registered the rest of the CPUs meanwhile
+            error = DLB_ERR_PERM;
+        }
     }
 
     if (!error && !dry_run) {
@@ -1471,26 +1500,28 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         new_owner->dirty = true;
     }
 
-    if (error && !dry_run) {
-        // Some CPUs could not be stolen, roll everything back
+    if (error && stolen) {
+        // Some CPUs could not be stolen, return them to the processes they were stolen from
         for (p = 0; p < max_processes; ++p) {
             pinfo_t *victim = &shdata->process_info[p];
-            if (victim != new_owner && victim->pid != NOBODY) {
-                cpu_set_t cpus_to_return;
-                CPU_AND(&cpus_to_return, &victim->stolen_cpus, mask);
-                if (CPU_COUNT(&cpus_to_return) > 0) {
-                    // warning: we may return some CPU to a wrong process
-                    // if more than one contains that CPU as stolen
-                    CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
-                            &cpus_to_return);
-                    mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
-                    victim->dirty = !CPU_EQUAL(
-                            &victim->current_process_mask, &victim->future_process_mask);
-                }
+            cpu_set_t cpus_to_return;
+            CPU_ZERO(&cpus_to_return);
+            if (stolen[p].pid != NOBODY && stolen[p].pid == victim->pid) {
+                CPU_AND(&cpus_to_return, &victim->stolen_cpus, &stolen[p].cpus);
+                CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
+                        &cpus_to_return);
+                mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
+                victim->dirty = !CPU_EQUAL(
+                        &victim->current_process_mask, &victim->future_process_mask);
             }
+
+            // The victim may have been finalized, the CPUs do not belong to anyone
+            mu_substract(&stolen[p].cpus, &stolen[p].cpus, &cpus_to_return);
+            CPU_OR(&shdata->free_mask, &shdata->free_mask, &stolen[p].cpus);
         }
     }
 
+    free(stolen);
     return error;
 }
 
@@ -1533,9 +1564,14 @@ static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
     }
 
     /* Run first a dry run to check if CPUs can be stolen */
-    int error = steal_mask(process, &cpus_to_steal, sync, /* dry_run */ true);
-    error = error ? error : steal_mask(process, &cpus_to_steal, sync, /* dry_run */ false);
+    int error = steal_mask(process, &cpus_to_steal, &cpus_to_acquire, sync,
+            /* dry_run */ true);
+    error = error ? error : steal_mask(process, &cpus_to_steal, &cpus_to_acquire, sync,
+            /* dry_run */ false);
     error = error ? error : register_mask(process, &cpus_to_acquire);
+
+    /* The lock may have been released while stealing, free only the CPUs still owned */
+    CPU_AND(&cpus_to_free, &cpus_to_free, &process->future_process_mask);
     error = error ? error : unregister_mask(process, &cpus_to_free, return_stolen);
     if (error == DLB_SUCCESS && free_cpu_mask != NULL) {
         memcpy(free_cpu_mask, &cpus_to_free, sizeof(cpu_set_t));
-- 
2.43.0


From a69f50afd4d9895e0a6ff8975d7c645d0de96287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 055/136] fix: synchronous DLB_DROM_GetProcessMask fails if the
 process is finalized

---
 src/LB_comm/shmem_procinfo.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e744cd2..4c55498 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -790,6 +790,7 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
 
     if (!error && !done) {
         // process is valid, but it's dirty so we need to poll
+        pid_t target_pid = process->pid;
         int64_t elapsed;
         struct timespec start, now;
         get_time_coarse(&start);
@@ -801,7 +802,10 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             // Polling
             shmem_lock(shm_handler);
             {
-                if (!process->dirty) {
+                if (process->pid != target_pid) {
+                    // process no longer valid
+                    error = DLB_ERR_NOPROC;
+                } else if (!process->dirty) {
                     memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
                     done = true;
                 }
@@ -809,7 +813,7 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             shmem_unlock(shm_handler);
 
             // Break if done
-            if (done) break;
+            if (done || error) break;
 
             // Break if timeout
             get_time_coarse(&now);
-- 
2.43.0


From 4d57a2ef11ff2f0f5b560c8f454c11a2e20d407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 056/136] fix: do not write beyond the capacity of DROM and
 stats lists

---
 src/LB_comm/shmem_procinfo.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 4c55498..7ad815a 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -995,14 +995,11 @@ int shmem_procinfo__getpidlist(pid_t *pidlist, int *nelems, int max_len) {
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             pid_t pid = shdata->process_info[p].pid;
             if (pid != NOBODY) {
                 pidlist[(*nelems)++] = pid;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1052,13 +1049,10 @@ void shmem_procinfo__getcpuusage_list(double *usagelist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 usagelist[(*nelems)++] = shdata->process_info[p].cpu_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1070,13 +1064,10 @@ void shmem_procinfo__getcpuavgusage_list(double *avgusagelist, int *nelems, int
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 avgusagelist[(*nelems)++] = shdata->process_info[p].cpu_avg_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1139,13 +1130,10 @@ void shmem_procinfo__getactivecpus_list(pid_t *cpuslist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 cpuslist[(*nelems)++] = shdata->process_info[p].active_cpus;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From d58eaf3c3027e5ffa42166cc26bc0671854b4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 057/136] fix: update the CPU ownership when
 DLB_DROM_GetProcessMask replaces PollDROM

---
 src/LB_core/DLB_kernel.c      | 35 +++++++++++++++++++++--------------
 src/LB_core/DLB_kernel.h      |  1 +
 src/apis/DLB_interface_drom.c |  5 +++--
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index ebe55ef..a660bca 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -692,6 +692,16 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
 
 /* Drom Responsive */
 
+static void update_ownership(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
+    if (spd->options.lewi) {
+        /* If LeWI, resolve reclaimed CPUs */
+        spd->lb_funcs.update_ownership(spd, mask);
+    } else {
+        /* Otherwise, udate owner and guest data */
+        shmem_cpuinfo__update_ownership(spd->id, mask, NULL);
+    }
+}
+
 int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
     int error;
     if (!spd->options.drom) {
@@ -704,13 +714,7 @@ int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_
 
         error = shmem_procinfo__polldrom(spd->id, new_cpus, mask);
         if (error == DLB_SUCCESS) {
-            if (spd->options.lewi) {
-                /* If LeWI, resolve reclaimed CPUs */
-                spd->lb_funcs.update_ownership(spd, mask);
-            } else {
-                /* Otherwise, udate owner and guest data */
-                shmem_cpuinfo__update_ownership(spd->id, mask, NULL);
-            }
+            update_ownership(spd, mask);
         }
         instrument_event(RUNTIME_EVENT, EVENT_POLLDROM, EVENT_END);
     }
@@ -726,6 +730,15 @@ int poll_drom_update(const subprocess_descriptor_t *spd) {
     return error;
 }
 
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
+    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    if (error == DLB_NOTED && thread_spd->dlb_initialized) {
+        /* The pending mask of this process has been resolved, do like a poll_drom */
+        update_ownership(thread_spd, mask);
+    }
+    return error;
+}
+
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
     cpu_set_t free_cpu_mask;
     int error = shmem_procinfo__setprocessmask(pid, mask, flags, &free_cpu_mask);
@@ -734,13 +747,7 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
             && (pid == 0 || pid == thread_spd->id)
             && !(flags & DLB_NO_SYNC)) {
         /* Mask has been successfully set by own process, do like a poll_drom_update */
-        if (thread_spd->options.lewi) {
-            /* If LeWI, resolve reclaimed CPUs */
-            thread_spd->lb_funcs.update_ownership(thread_spd, mask);
-        } else {
-            /* Otherwise, udate owner and guest data */
-            shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
-        }
+        update_ownership(thread_spd, mask);
         set_process_mask(&thread_spd->pm, mask);
     }
     if (error == DLB_SUCCESS && (flags & DLB_FREE_CPUS_SLURM)) {
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 6b4f3d1..5284ff0 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -84,6 +84,7 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 /* DROM Responsive */
 int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
 int poll_drom_update(const subprocess_descriptor_t *spd);
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
 /* Misc */
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index c1dff78..8d58f2c 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -65,10 +65,11 @@ int DLB_DROM_GetPidList(int *pidlist, int *nelems, int max_len) {
 }
 
 int DLB_DROM_GetProcessMask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
-    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    spd_enter_dlb(thread_spd);
+    int error = drom_getprocessmask(pid, mask, flags);
     if (error == DLB_ERR_NOSHMEM) {
         DLB_DROM_Attach();
-        error = shmem_procinfo__getprocessmask(pid, mask, flags);
+        error = drom_getprocessmask(pid, mask, flags);
         DLB_DROM_Detach();
     }
     return error;
-- 
2.43.0


From c064e333ed22d5b319c45494a023b8a46b75fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 058/136] fix: do not keep the reservation of a failed
 pre-initialization

---
 src/LB_core/DLB_kernel.c      | 7 ++++++-
 src/apis/DLB_interface_drom.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index a660bca..605229e 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -269,7 +269,12 @@ int PreInitialize(subprocess_descriptor_t *spd, const cpu_set_t *mask,
     error = error ? error : shmem_cpuinfo_ext__init(spd->options.shm_key, spd->options.lewi_color);
     error = error ? error : shmem_procinfo_ext__init(spd->options.shm_key);
     error = error ? error : shmem_procinfo_ext__preinit(spd->id, mask, 0);
-    error = error ? error : shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+        if (error != DLB_SUCCESS) {
+            shmem_procinfo_ext__postfinalize(spd->id, /* return_stolen */ false);
+        }
+    }
     // Close shmems even if there was an error
     int cpuinfo_finalize_err = shmem_cpuinfo_ext__finalize();
     error = error ? error : cpuinfo_finalize_err;
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index 8d58f2c..988b558 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -104,7 +104,12 @@ int DLB_DROM_PreInit(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags,
     }
 
     int error = shmem_procinfo_ext__preinit(pid, mask, flags);
-    error = error ? error : shmem_cpuinfo_ext__preinit(pid, mask, flags);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(pid, mask, flags);
+        if (error != DLB_SUCCESS) {
+            shmem_procinfo_ext__postfinalize(pid, /* return_stolen */ false);
+        }
+    }
     return error;
 }
 
-- 
2.43.0


From 8c5a042b9dee3730ebcd79d692e52cd1fc821215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:58 +0000
Subject: [PATCH 059/136] fix: undo the registration when DLB_Init fails

---
 src/LB_core/DLB_kernel.c |  6 +++++-
 src/apis/DLB_interface.c | 13 +++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 605229e..4bce284 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -149,7 +149,11 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
         // Initialize cpuinfo
         error = shmem_cpuinfo__init(spd->id, spd->options.preinit_pid,
                 &spd->process_mask, spd->options.shm_key, spd->options.lewi_color);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            shmem_procinfo__finalize(spd->id, /* return_stolen */ false,
+                    spd->options.shm_key);
+            return error;
+        }
     } else if (spd->options.talp) {
         // If mask is not needed but TALP is enabled, we still need to
         // initialize shmem_procinfo but allowing CPU sharing
diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index d748ca4..ab985f6 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -44,7 +44,12 @@
 int DLB_Init(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_args) {
     spd_enter_dlb(thread_spd);
     if (__sync_bool_compare_and_swap(&thread_spd->dlb_initialized, false, true) ) {
-        return Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        int error = Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        if (error != DLB_SUCCESS) {
+            /* DLB cannot be used, nor finalized */
+            thread_spd->dlb_initialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
@@ -78,7 +83,11 @@ int DLB_PreInit(const_dlb_cpu_set_t mask, char ***next_environ) {
         snprintf(flag, 32, "--preinit-pid=%d", getpid());
         dlb_setenv("DLB_ARGS", flag, next_environ, ENV_APPEND);
 
-        return PreInitialize(thread_spd, mask, NULL);
+        int error = PreInitialize(thread_spd, mask, NULL);
+        if (error != DLB_SUCCESS) {
+            thread_spd->dlb_preinitialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
-- 
2.43.0


From ae2bef53fd8f07633f41f0d3f32f178b85358872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:58 +0000
Subject: [PATCH 060/136] fix: release CPUs stolen by DROM whose new owner has
 finalized

---
 src/LB_comm/shmem_cpuinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 4dfe716..07a0f58 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2066,8 +2066,8 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                 }
             } else {
                 if (cpuinfo->guest == pid
-                        && cpuinfo->state == CPU_BUSY) {
-                    // The CPU has been either stolen or reclaimed,
+                        && cpuinfo->state != CPU_LENT) {
+                    // The CPU has been stolen, reclaimed, or its owner has finalized,
                     // return it anyway ('tasks' may be NULL if LeWI is disabled)
                     return_cpu(pid, cpuid, tasks);
                 }
-- 
2.43.0


From 5690986aa6476e4395b263d1e4307882de515ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 061/136] fix: do not save the DROM process of a failed
 initialization

---
 src/LB_comm/shmem_procinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 7ad815a..62fd8c1 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -426,7 +426,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     __FUNCTION__, preinit_pid, preinit_process, error, PACKAGE_BUGREPORT);
         }
 
-        if (process) {
+        if (process && error >= DLB_SUCCESS) {
             // Save pointer for faster access
             my_pinfo = process;
         }
-- 
2.43.0


From c1a159baee55b28637ef99374217384b18b863cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 062/136] fix: release the CPUs of an inherited reservation
 that are not inherited

---
 src/LB_comm/shmem_procinfo.c | 15 +++++++++++++++
 src/LB_comm/shmem_procinfo.h |  1 +
 src/LB_core/DLB_kernel.c     |  7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 62fd8c1..274e818 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -1303,6 +1303,21 @@ void shmem_procinfo__print_info(const char *shmem_key) {
     free(shdata_copy);
 }
 
+bool shmem_procinfo__is_registered(pid_t pid) {
+    if (shm_handler == NULL) return false;
+
+    bool registered = false;
+    shmem_lock(shm_handler);
+    {
+        int p;
+        for (p = 0; p < max_processes && !registered; p++) {
+            registered = shdata->process_info[p].pid == pid;
+        }
+    }
+    shmem_unlock(shm_handler);
+    return registered;
+}
+
 bool shmem_procinfo__exists(void) {
     return shm_handler != NULL;
 }
diff --git a/src/LB_comm/shmem_procinfo.h b/src/LB_comm/shmem_procinfo.h
index c7cd63c..4f1dd24 100644
--- a/src/LB_comm/shmem_procinfo.h
+++ b/src/LB_comm/shmem_procinfo.h
@@ -64,6 +64,7 @@ int  shmem_procinfo__setcpuavgusage(pid_t pid, double new_avg_usage);
 
 /* Misc */
 void shmem_procinfo__print_info(const char *shmem_key);
+bool shmem_procinfo__is_registered(pid_t pid);
 bool shmem_procinfo__exists(void);
 int  shmem_procinfo__version(void);
 size_t shmem_procinfo__size(void);
diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 4bce284..c55f1ce 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -154,6 +154,13 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
                     spd->options.shm_key);
             return error;
         }
+
+        // If the whole reservation has been inherited, release those CPUs that
+        // are no longer in the process mask
+        if (spd->options.preinit_pid != 0
+                && !shmem_procinfo__is_registered(spd->options.preinit_pid)) {
+            shmem_cpuinfo_ext__postfinalize(spd->options.preinit_pid);
+        }
     } else if (spd->options.talp) {
         // If mask is not needed but TALP is enabled, we still need to
         // initialize shmem_procinfo but allowing CPU sharing
-- 
2.43.0


From ce745da7b207df78181a6d5ecfd1e1075650059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:20 +0000
Subject: [PATCH 063/136] fix: release the CPUs of a process that finalizes
 after DLB_PreInit

---
 src/apis/DLB_interface.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index ab985f6..d4d74ea 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -26,6 +26,7 @@
 #include "LB_core/node_barrier.h"
 #include "LB_core/spd.h"
 #include "LB_core/DLB_kernel.h"
+#include "LB_comm/shmem_cpuinfo.h"
 #include "LB_comm/shmem_procinfo.h"
 #include "support/env.h"
 #include "support/error.h"
@@ -62,11 +63,16 @@ int DLB_Finalize(void) {
     } else if (__sync_bool_compare_and_swap(&thread_spd->dlb_preinitialized, true, false) ) {
         /* This is to support the case when a single process does DLB_PreInit + DLB_Init
          * The first DLB_Finalize must finalize everything except the CPUs not inherited
-         * during DLB_Init, if any. The second finalize must clean up the procinfo shmem.
+         * during DLB_Init, if any. The second finalize must clean up the cpuinfo and
+         * procinfo shmems. They may be already attached, e.g., with DLB_DROM_Attach.
          */
-        shmem_procinfo__finalize(thread_spd->id,
-                thread_spd->options.debug_opts & DBG_RETURNSTOLEN,
-                thread_spd->options.shm_key);
+        shmem_cpuinfo_ext__init(thread_spd->options.shm_key, thread_spd->options.lewi_color);
+        shmem_procinfo_ext__init(thread_spd->options.shm_key);
+        shmem_cpuinfo_ext__postfinalize(thread_spd->id);
+        shmem_procinfo_ext__postfinalize(thread_spd->id,
+                thread_spd->options.debug_opts & DBG_RETURNSTOLEN);
+        shmem_cpuinfo_ext__finalize();
+        shmem_procinfo_ext__finalize();
         return DLB_SUCCESS;
     }
     return DLB_NOUPDT;
-- 
2.43.0


From 878147791555e0b022b8a3209feec7f8675dc13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 064/136] fix: DLB_PreInit can modify other environment than
 the current one

---
 src/apis/DLB_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index d4d74ea..82795a4 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -89,7 +89,8 @@ int DLB_PreInit(const_dlb_cpu_set_t mask, char ***next_environ) {
         snprintf(flag, 32, "--preinit-pid=%d", getpid());
         dlb_setenv("DLB_ARGS", flag, next_environ, ENV_APPEND);
 
-        int error = PreInitialize(thread_spd, mask, NULL);
+        /* The current environment does not contain the flag if next_environ is provided */
+        int error = PreInitialize(thread_spd, mask, next_environ ? flag : NULL);
         if (error != DLB_SUCCESS) {
             thread_spd->dlb_preinitialized = false;
         }
-- 
2.43.0


From 34d72b6c43282b20e8e1d1d89db35c3219bf9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:32 +0000
Subject: [PATCH 065/136] fix: refuse to register the process' own default
 barrier by name

DLB_BarrierNamedRegister("default") attached the process a second time to the
barrier where it already participates, so that the barrier never completed.
---
 src/LB_core/node_barrier.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index df967df..f9274e2 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -161,7 +161,6 @@ void node_barrier_finalize(subprocess_descriptor_t *spd) {
 barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
         const char *barrier_name, int flags) {
 
-    /* This function does not allow registering the default barrier */
     if (barrier_name == NULL) return NULL;
 
     barrier_t *barrier = NULL;
@@ -170,6 +169,12 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
         barrier_info_t *barrier_info = spd->barrier_info;
+
+        /* This function does not allow registering the default barrier, the
+         * process would be attached to the same barrier twice */
+        if (strncmp(barrier_name, barrier_info->default_barrier_name,
+                    BARRIER_NAME_MAX-1) == 0) return NULL;
+
         if (barrier_info->barrier_list[0] != NULL) {
             barrier = shmem_barrier__find(barrier_name);
             if (barrier != NULL) {
-- 
2.43.0


From 98c1565519fbe3a894be91d6e81668b5ac2edaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:59 +0000
Subject: [PATCH 066/136] fix: count the participants of consecutive barriers
 correctly

The counter was decreased while leaving, so a process entering the next barrier
before the others had left could be taken for the last one: it did not lend its
CPUs although it had to wait, and the barrier was counted as completed twice.
---
 src/LB_comm/shmem_barrier.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index ad1ca41..0bdeb48 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -400,6 +400,14 @@ void shmem_barrier__barrier(barrier_t *barrier) {
         unsigned int participant_number = DLB_ATOMIC_ADD_FETCH(&barrier->count, 1);
         bool last_in = participant_number == barrier->participants;
 
+        /* All the participants have entered and none of them can enter the next
+         * barrier until this process does pthread_barrier_wait, so the counter
+         * is reset here and not while leaving, where other processes may be
+         * already entering the next barrier. */
+        if (last_in) {
+            barrier->count = 0;
+        }
+
         verbose(VB_BARRIER, "Entering barrier %s%s", barrier->name, last_in ? " (last)" : "");
 
         if (last_in) {
@@ -435,17 +443,7 @@ void shmem_barrier__barrier(barrier_t *barrier) {
             }
         }
 
-        unsigned int participants_left = DLB_ATOMIC_SUB_FETCH(&barrier->count, 1);
-        bool last_out = participants_left == 0;
-
-        verbose(VB_BARRIER, "Leaving barrier %s%s", barrier->name, last_out ? " (last)" : "");
-
-        /* WARNING: There may be a race condition with the 'count' value in
-         *          consecutive barriers (A -> B), if one process increases the
-         *          'count' value after entering B, while another process still
-         *          hasn't decreased it in B. Anyway, this is completely harmless
-         *          since it only affects the verbose message.
-         */
+        verbose(VB_BARRIER, "Leaving barrier %s", barrier->name);
     }
     pthread_rwlock_unlock(&barrier->rwlock);
 }
-- 
2.43.0


From 9b6fd46ed45dd5c4b69d72661399fefb33a2adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:59 +0000
Subject: [PATCH 067/136] fix: return the number of participants when attaching
 to the default barrier

DLB_BarrierAttach always returned 1 regardless of the other participants.
---
 src/LB_comm/shmem_barrier.c | 9 +++++++++
 src/LB_comm/shmem_barrier.h | 2 ++
 src/LB_core/node_barrier.c  | 7 ++++---
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 0bdeb48..65f979f 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -171,6 +171,14 @@ barrier_t* shmem_barrier__find(const char *barrier_name) {
  *   lewi: whether this barrier does lewi
  */
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi) {
+    int participants;
+    return shmem_barrier__register_and_count(barrier_name, lewi, &participants);
+}
+
+/* Same as shmem_barrier__register, but also obtain the number of participants
+ * once this process is attached. */
+barrier_t* shmem_barrier__register_and_count(const char *barrier_name, bool lewi,
+        int *num_participants) {
     if (shm_handler == NULL) return NULL;
     if (barrier_name == NULL) return NULL;
 
@@ -268,6 +276,7 @@ barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi) {
         /* Attach if needed and print number of participants */
         verbose(VB_BARRIER, "Attached to barrier %s. Participants: %d",
                 barrier->name, participants);
+        *num_participants = participants;
     }
 
     return barrier;
diff --git a/src/LB_comm/shmem_barrier.h b/src/LB_comm/shmem_barrier.h
index 476190c..69246e6 100644
--- a/src/LB_comm/shmem_barrier.h
+++ b/src/LB_comm/shmem_barrier.h
@@ -33,6 +33,8 @@ int  shmem_barrier__get_system_id(void);
 int  shmem_barrier__get_max_barriers(void);
 barrier_t* shmem_barrier__find(const char *barrier_name);
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi);
+barrier_t* shmem_barrier__register_and_count(const char *barrier_name, bool lewi,
+        int *num_participants);
 int  shmem_barrier__attach(barrier_t *barrier);
 int  shmem_barrier__detach(barrier_t *barrier);
 void shmem_barrier__barrier(barrier_t *barrier);
diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index f9274e2..13b36ee 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -284,11 +284,12 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                 bool lewi_barrier = parse_lewi_barrier(default_barrier_name,
                         spd->options.lewi_barrier,
                         spd->options.lewi_barrier_select, 0);
-                barrier_info->default_barrier = shmem_barrier__register(
+                int participants = 0;
+                barrier_info->default_barrier = shmem_barrier__register_and_count(
                         barrier_info->default_barrier_name,
-                        lewi_barrier);
+                        lewi_barrier, &participants);
                 // return number of participants
-                error = barrier_info->default_barrier ? 1 : DLB_ERR_NOMEM;
+                error = barrier_info->default_barrier ? participants : DLB_ERR_NOMEM;
             } else {
                 /* Default barrier already attached */
                 error = DLB_ERR_PERM;
-- 
2.43.0


From d3d7815bd45414df3a72d65e9e6736eec7ea5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:02 +0000
Subject: [PATCH 068/136] fix: return an error from the barrier functions after
 DLB_Finalize

The options are kept after finalizing, and the barrier_info structure, already
freed and NULL, was dereferenced.
---
 src/LB_core/node_barrier.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 13b36ee..d9b594f 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -45,6 +45,12 @@ typedef struct barrier_info {
 static const char *default_barrier_name = "default";
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 
+/* spd->barrier_info is NULL if the process has not been initialized, or if it
+ * has already been finalized */
+static inline bool barrier_is_available(const subprocess_descriptor_t *spd) {
+    return spd->options.barrier && spd->barrier_info != NULL;
+}
+
 /* Parse, for the specific barrier, whether it should do LeWI based on:
  * - if barrier_name == default_barrier_name:
  *      if lewi_barrier and !lewi_barrier_select;
@@ -164,7 +170,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
     if (barrier_name == NULL) return NULL;
 
     barrier_t *barrier = NULL;
-    if (spd->options.barrier) {
+    if (barrier_is_available(spd)) {
         /* The register function cannot know whether the calling process is a new
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
@@ -224,7 +230,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
 
 int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (barrier_is_available(spd)) {
         /* Check whether barrier is valid */
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
@@ -276,7 +282,7 @@ int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (barrier_is_available(spd)) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             if (barrier_info->default_barrier == NULL) {
@@ -335,7 +341,7 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_detach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (barrier_is_available(spd)) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             if (barrier_info->default_barrier != NULL) {
-- 
2.43.0


From 285b6b69a42fbccb1a25d92a8b8c4236bd99d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 069/136] fix: detach from the async shared memory if the
 helper cannot be registered

The number of attached subprocesses was not restored, so the shared memory was
never removed.
---
 src/LB_comm/shmem_async.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index 467632c..9977671 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -219,6 +219,19 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     }
 }
 
+/* Detach subprocess from the shared memory, the last one destroys it */
+static void detach_subprocess(void) {
+    pthread_mutex_lock(&mutex);
+    {
+        if (--subprocesses_attached == 0) {
+            shmem_finalize(shm_handler, NULL /* do not check if empty */);
+            shm_handler = NULL;
+            shdata = NULL;
+        }
+    }
+    pthread_mutex_unlock(&mutex);
+}
+
 int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *process_mask,
         const char *shmem_key) {
     int error = DLB_ERR_UNKNOWN;
@@ -287,6 +300,7 @@ int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *proce
     shmem_unlock(shm_handler);
 
     if (helper == NULL) {
+        detach_subprocess();
         error = DLB_ERR_NOMEM;
         warn_error(DLB_ERR_NOMEM);
     }
@@ -316,15 +330,7 @@ int shmem_async_finalize(pid_t pid) {
         shmem_unlock(shm_handler);
 
         /* Shared memory destruction */
-        pthread_mutex_lock(&mutex);
-        {
-            if (--subprocesses_attached == 0) {
-                shmem_finalize(shm_handler, NULL /* do not check if empty */);
-                shm_handler = NULL;
-                shdata = NULL;
-            }
-        }
-        pthread_mutex_unlock(&mutex);
+        detach_subprocess();
     }
 
     return helper ? DLB_SUCCESS : DLB_ERR_NOPROC;
-- 
2.43.0


From 861b3313366ebc254bc3d5a4ebf1b44e8db60516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 070/136] fix: do not deliver asynchronous messages to a
 finalized or different helper

The helper was found, and checked to be accepting messages, without any lock. If
meanwhile it was finalized and its slot reused, the message was delivered to
another process.
---
 src/LB_comm/shmem_async.c | 63 ++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index 9977671..1886ac3 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -102,6 +102,8 @@ static helper_t* get_helper(pid_t pid) {
     return NULL;
 }
 
+/* The shared memory lock is needed, so that the helper cannot be finalized, or
+ * even replaced by the helper of another process, while enqueuing the message. */
 static void enqueue_message(helper_t *helper, const message_t *message) {
     /* Discard message if helper does not accept new inputs */
     if (helper->joinable) {
@@ -119,6 +121,7 @@ static void enqueue_message(helper_t *helper, const message_t *message) {
     unsigned int next_head = (helper->q_head + 1) % QUEUE_SIZE;
     if (__builtin_expect((next_head == helper->q_tail), 0)) {
         pthread_mutex_unlock(&helper->q_lock);
+        shmem_unlock(shm_handler);
         fatal("Max petitions requested for asynchronous thread");
     }
 
@@ -133,6 +136,22 @@ static void enqueue_message(helper_t *helper, const message_t *message) {
     pthread_mutex_unlock(&helper->q_lock);
 }
 
+/* Enqueue the message if pid has a helper thread, return the helper if so */
+static helper_t* send_message(pid_t pid, const message_t *message) {
+    if (shm_handler == NULL) return NULL;
+
+    helper_t *helper;
+    shmem_lock(shm_handler);
+    {
+        helper = get_helper(pid);
+        if (helper) {
+            enqueue_message(helper, message);
+        }
+    }
+    shmem_unlock(shm_handler);
+    return helper;
+}
+
 static void dequeue_message(helper_t *helper, message_t *message) {
     pthread_mutex_lock(&helper->q_lock);
 
@@ -310,12 +329,11 @@ int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *proce
 
 int shmem_async_finalize(pid_t pid) {
     verbose(VB_ASYNC, "Finalizing helper thread for pid: %d", pid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        /* Enqueue JOIN message  */
-        message_t message = { .action = ACTION_JOIN };
-        enqueue_message(helper, &message);
 
+    /* Enqueue JOIN message  */
+    message_t join_message = { .action = ACTION_JOIN };
+    helper_t *helper = send_message(pid, &join_message);
+    if (helper) {
         /* Wait helper thread to finish */
         pthread_join(helper->pth, NULL);
         verbose(VB_ASYNC, "Helper thread joined");
@@ -339,49 +357,34 @@ int shmem_async_finalize(pid_t pid) {
 
 void shmem_async_enable_cpu(pid_t pid, int cpuid) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, enable cpuid %d", pid, cpuid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_ENABLE_CPU, .cpuid = cpuid };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_ENABLE_CPU, .cpuid = cpuid };
+    send_message(pid, &message);
 }
 
 void shmem_async_enable_cpu_set(pid_t pid, const cpu_set_t *cpu_set) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, enable cpu set %s",
             pid, mu_to_str(cpu_set));
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_ENABLE_CPU_SET, .cpu_set = *cpu_set };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_ENABLE_CPU_SET, .cpu_set = *cpu_set };
+    send_message(pid, &message);
 }
 
 void shmem_async_disable_cpu(pid_t pid, int cpuid) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, disable cpuid %d", pid, cpuid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_DISABLE_CPU, .cpuid = cpuid };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_DISABLE_CPU, .cpuid = cpuid };
+    send_message(pid, &message);
 }
 
 void shmem_async_disable_cpu_set(pid_t pid, const cpu_set_t *cpu_set) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, disable cpu set %s",
             pid, mu_to_str(cpu_set));
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_DISABLE_CPU_SET, .cpu_set = *cpu_set };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_DISABLE_CPU_SET, .cpu_set = *cpu_set };
+    send_message(pid, &message);
 }
 
 void shmem_async_set_num_cpus(pid_t pid, int ncpus) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, set num CPUs %d", pid, ncpus);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_SET_NUM_CPUS, .ncpus = ncpus };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_SET_NUM_CPUS, .ncpus = ncpus };
+    send_message(pid, &message);
 }
 
 int shmem_async__version(void) {
-- 
2.43.0


From 51d83f028e402a2babc934e70e503455e664467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 071/136] fix: reset the classic LeWI state on initialization

A maximum parallelism set before DLB_Finalize was still applied after the
following DLB_Init.
---
 src/LB_policies/lewi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index e19ea93..480b8ab 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -46,6 +46,8 @@ int lewi_Init(subprocess_descriptor_t *spd) {
     verbose(VB_MICROLB, "LeWI Init");
 
     default_cpus = spd->lewi_ncpus;
+    single = 0;
+    max_parallelism = 0;
 
     setThreads_Lend_light(&spd->pm, default_cpus);
 
-- 
2.43.0


From 88add8085617ed01799948ef749bbb96a0a6584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 072/136] fix: ignore a non-positive maximum parallelism in
 classic LeWI

A negative value released more CPUs than the process had, like the mask
policy, it is now ignored.
---
 src/LB_policies/lewi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 480b8ab..6855f07 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -93,6 +93,8 @@ int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_SetMaxParallelism(const subprocess_descriptor_t *spd, int max) {
+    if (max <= 0) return DLB_SUCCESS;
+
     if (myCPUS>max){
         releaseCpus(myCPUS-max);
         setThreads_Lend_light(&spd->pm, max);
-- 
2.43.0


From b858ac93ca8e32b25c38d12b0bb501db93579a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 073/136] fix: do not borrow a negative number of CPUs in
 classic LeWI

Either a non-positive argument or a maximum parallelism below the current
number of CPUs made the process give CPUs away with DLB_BorrowCpus.
---
 src/LB_policies/lewi.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 6855f07..32165c2 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -162,8 +162,10 @@ int lewi_Borrow(const subprocess_descriptor_t *spd) {
 int lewi_BorrowCpus(const subprocess_descriptor_t *spd, int maxResources) {
     int error = DLB_NOUPDT;
     if (enabled && !single) {
+        if (maxResources <= 0) return DLB_NOUPDT;
+
         int max_resources = max_parallelism > 0 ?
-            min_int(maxResources, max_parallelism - myCPUS) : maxResources;
+            max_int(0, min_int(maxResources, max_parallelism - myCPUS)) : maxResources;
         int cpus = checkIdleCpus(myCPUS, max_resources);
         if (myCPUS!=cpus) {
             verbose(VB_MICROLB, "Using %d cpus", cpus);
-- 
2.43.0


From 2878c1e994f2b21727a363bbc04e851d925ee3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 074/136] fix: do not lose the idle CPUs when disabling a
 greedy process

acquireCpus also returns the idle CPUs in greedy mode, but the process was
set to its default number of CPUs.
---
 src/LB_policies/lewi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 32165c2..aacc315 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -85,7 +85,7 @@ int lewi_EnableDLB(const subprocess_descriptor_t *spd) {
 int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
     if (enabled && !single) {
         verbose(VB_MICROLB, "ResetDLB");
-        acquireCpus(myCPUS);
+        releaseCpus(myCPUS-default_cpus);
         setThreads_Lend_light(&spd->pm, default_cpus);
     }
     enabled = 0;
-- 
2.43.0


From a496b1d06e1b7dce7ab31b7e807cfdd3f70ff727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 075/136] fix: return the CPUs of a process that finalizes
 classic LeWI

Borrowed CPUs disappeared and lent CPUs stayed available to the others.
---
 src/LB_policies/lewi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index aacc315..c6241a8 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -72,6 +72,11 @@ int lewi_Init(subprocess_descriptor_t *spd) {
 }
 
 int lewi_Finalize(subprocess_descriptor_t *spd) {
+    /* Give back the borrowed CPUs, or recover the lent ones */
+    releaseCpus(myCPUS-default_cpus);
+    setThreads_Lend_light(&spd->pm, default_cpus);
+    enabled = 0;
+
     finalize_comm();
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 5674242819d6c47cf63a6d6003f6bc8f379d441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 076/136] fix: keep the count of idle CPUs with concurrent
 classic LeWI calls

The number of idle CPUs was read several times, and in greedy mode added
even if the compare and swap failed.
---
 src/LB_comm/comm_lend_light.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index f14ef41..a5beb35 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -130,7 +130,13 @@ int acquireCpus(int current_cpus) {
 //I don't care if there aren't enough cpus
 
     if((__sync_sub_and_fetch (&(shdata->idleCpus), cpus)>0) && greedy) {
-        cpus+=__sync_val_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, 0);
+        int idle;
+        do {
+            idle = shdata->idleCpus;
+        } while (idle > 0 && !__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, 0));
+        if (idle > 0) {
+            cpus += idle;
+        }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
@@ -146,23 +152,20 @@ that are assigned
 int checkIdleCpus(int myCpus, int maxResources) {
     verbose(VB_SHMEM, "Checking idle CPUS... %d", shdata->idleCpus);
     int cpus;
-    int aux;
+    int idle = shdata->idleCpus;
 //WARNING//
     //if more CPUS than the availables are used release some
-    if ((shdata->idleCpus < 0) && (myCpus>defaultCPUS) ) {
-        aux=shdata->idleCpus;
-        cpus=min_int(abs(aux), myCpus-defaultCPUS);
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), aux, aux+cpus)) {
+    if ((idle < 0) && (myCpus>defaultCPUS) ) {
+        cpus=min_int(abs(idle), myCpus-defaultCPUS);
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle+cpus)) {
             myCpus-=cpus;
         }
 
         //if there are idle CPUS use them
-    } else if( shdata->idleCpus > 0) {
-        aux=shdata->idleCpus;
-        if(aux>maxResources) { aux=maxResources; }
-
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, shdata->idleCpus-aux)) {
-            myCpus+=aux;
+    } else if(idle > 0) {
+        cpus=min_int(idle, maxResources);
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle-cpus)) {
+            myCpus+=cpus;
         }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
-- 
2.43.0


From 559023146a20045a53560a6a0f27ab9748617c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 077/136] fix: do not borrow all CPUs with a negative number in
 async LeWI

---
 src/LB_policies/lewi_async.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 8487d06..15c061c 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -295,6 +295,8 @@ int lewi_async_Borrow(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_async_BorrowCpus(const subprocess_descriptor_t *spd, int ncpus) {
+    if (ncpus <= 0) return DLB_NOUPDT;
+
     unsigned int new_ncpus;
     int error = shmem_lewi_async__borrow_cpus(spd->id, ncpus, &new_ncpus);
     if (error == DLB_SUCCESS) {
-- 
2.43.0


From 0f57ab90d96702fa2a3ff44f7dd7fcba897e3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 078/136] fix: remove the async LeWI requests of a process that
 disables DLB

If the process had its initial number of CPUs, its requests were kept and
it received CPUs while disabled.
---
 src/LB_comm/shmem_lewi_async.c |  9 ++++---
 src/LB_comm/shmem_lewi_async.h |  2 +-
 src/LB_policies/lewi_async.c   | 46 ++++++++++++++++++++++------------
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e47f070..a9cdd6e 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -113,13 +113,16 @@ size_t shmem_lewi_async__size(void) {
 /*  Queue management                                                             */
 /*********************************************************************************/
 
-void shmem_lewi_async__remove_requests(pid_t pid) {
-    if (unlikely(shm_handler == NULL)) return;
+/* Return the number of CPUs of the removed requests */
+unsigned int shmem_lewi_async__remove_requests(pid_t pid) {
+    if (unlikely(shm_handler == NULL)) return 0;
+    unsigned int num_requests;
     shmem_lock(shm_handler);
     {
-        queue_lewi_reqs_remove(&shdata->requests, pid);
+        num_requests = queue_lewi_reqs_remove(&shdata->requests, pid);
     }
     shmem_unlock(shm_handler);
+    return num_requests;
 }
 
 /* Only for testing purposes */
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index 804a6b3..5200118 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -28,7 +28,7 @@ int shmem_lewi_async__version(void);
 
 size_t shmem_lewi_async__size(void);
 
-void shmem_lewi_async__remove_requests(pid_t pid);
+unsigned int shmem_lewi_async__remove_requests(pid_t pid);
 
 unsigned int shmem_lewi_async__get_num_requests(pid_t pid);
 
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 15c061c..79974a5 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -143,28 +143,42 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 int lewi_async_Disable(const subprocess_descriptor_t *spd) {
     verbose(VB_MICROLB, "Reset LeWI");
 
-    unsigned int new_ncpus;
-    unsigned int num_requests;
-    unsigned int prev_requested;
+    int error;
+    unsigned int requests_removed;
+    unsigned int total_prev_requested = 0;
     SMALL_ARRAY(lewi_request_t, requests, node_size);
-    int error = shmem_lewi_async__reset(spd->id, &new_ncpus, requests,
-            &num_requests, node_size, &prev_requested);
 
-    if (error == DLB_SUCCESS) {
+    do {
+        unsigned int new_ncpus;
+        unsigned int num_requests;
+        unsigned int prev_requested;
+        error = shmem_lewi_async__reset(spd->id, &new_ncpus, requests,
+                &num_requests, node_size, &prev_requested);
 
-        /* Save previously requested CPUs to push request again later */
-        if (prev_requested > 0 ) {
-            lewi_info_t *lewi_info = spd->lewi_info;
-            lewi_info->prev_requested = prev_requested;
-        }
+        if (error == DLB_SUCCESS) {
+            total_prev_requested += prev_requested;
 
-        /* Set num_threads = new_ncpus */
-        lewi_async_set_num_threads(&spd->pm, new_ncpus);
+            /* Set num_threads = new_ncpus */
+            lewi_async_set_num_threads(&spd->pm, new_ncpus);
 
-        /* Trigger other processes's helper thread */
-        for (unsigned int i=0; i<num_requests; ++i) {
-            shmem_async_set_num_cpus(requests[i].pid, requests[i].howmany);
+            /* Trigger other processes's helper thread */
+            for (unsigned int i=0; i<num_requests; ++i) {
+                shmem_async_set_num_cpus(requests[i].pid, requests[i].howmany);
+            }
         }
+
+        /* Requests are not removed if the process already had its initial
+         * number of CPUs. If some is found, check again that it was not
+         * attended in the meantime. */
+        requests_removed = shmem_lewi_async__remove_requests(spd->id);
+        total_prev_requested += requests_removed;
+
+    } while (requests_removed > 0);
+
+    /* Save previously requested CPUs to push request again later */
+    if (total_prev_requested > 0 ) {
+        lewi_info_t *lewi_info = spd->lewi_info;
+        lewi_info->prev_requested = total_prev_requested;
     }
 
     return error == DLB_NOUPDT ? DLB_SUCCESS : error;
-- 
2.43.0


From 41dc512f468a3f5f9dffc386890935ba54933f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:54 +0000
Subject: [PATCH 079/136] fix: do not duplicate the saved requests when
 enabling async LeWI

lewi_async_AcquireCpus already adds the previously requested CPUs.
---
 src/LB_policies/lewi_async.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 79974a5..72e4cd1 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -131,10 +131,10 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
     /* Restore previously requested CPUs */
     lewi_info_t *lewi_info = spd->lewi_info;
     if (lewi_info->prev_requested > 0) {
-        error = lewi_async_AcquireCpus(spd, lewi_info->prev_requested);
-        if (error == DLB_SUCCESS || error == DLB_NOTED) {
-            lewi_info->prev_requested = 0;
-        }
+        /* AcquireCpus adds the saved requests to its argument */
+        int ncpus = lewi_info->prev_requested;
+        lewi_info->prev_requested = 0;
+        error = lewi_async_AcquireCpus(spd, ncpus);
     }
 
     return error;
-- 
2.43.0


From 9396c2fdf915cffc7d8a38a584214ce66c1bca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 080/136] fix: link every TALP-Pages site to the index page

The link assumed exactly one directory level, the documented folder
structure has more, and the index page linked outside of the report.
---
 talp-pages/talp_pages/html/site.py         | 6 +++++-
 talp-pages/talp_pages/reports/ci_report.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/talp-pages/talp_pages/html/site.py b/talp-pages/talp_pages/html/site.py
index 6425abd..65d0b75 100644
--- a/talp-pages/talp_pages/html/site.py
+++ b/talp-pages/talp_pages/html/site.py
@@ -12,7 +12,7 @@ class HTMLSite:
             "page_metadata": {
                 "timestamp_string": datetime.now().isoformat(timespec="seconds"),
                 "version": TALP_PAGES_VERSION,
-                "home": "../index.html",
+                "home": "index.html",
             }
         }
         self.jinja_env = Environment(loader=FileSystemLoader(TALP_PAGES_TEMPLATE_PATH))
@@ -20,6 +20,10 @@ class HTMLSite:
         self.template = self.jinja_env.get_template(self.template_name)
         self.file_name = file_name
 
+    def set_home(self, home: str) -> None:
+        """Set the relative link to the index page"""
+        self.page_metadata["page_metadata"]["home"] = home
+
     def render_template(self, **context) -> str:
         # Render the template with the provided context
         return self.template.render({**context, **self.page_metadata})
diff --git a/talp-pages/talp_pages/reports/ci_report.py b/talp-pages/talp_pages/reports/ci_report.py
index dec18a5..b3cfa25 100644
--- a/talp-pages/talp_pages/reports/ci_report.py
+++ b/talp-pages/talp_pages/reports/ci_report.py
@@ -1,3 +1,4 @@
+import os
 from typing import List
 from pathlib import Path
 from dataclasses import dataclass
@@ -81,7 +82,9 @@ class CIReport:
             }
             # Write out the things
             subfolder = output_path.joinpath(run_folder.relative_path)
+            home = os.path.relpath(output_path.joinpath("index.html"), subfolder)
             for site in [scaling_result_site, *time_series_sites]:
+                site.set_home(Path(home).as_posix())
                 write_site(subfolder, site)
             for badge in badges:
                 write_badge(subfolder, badge)
-- 
2.43.0


From 511616b8c3ba082bd1d94b6d7d7185e98c9af80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 081/136] fix: generate the evolution plots of OpenMP runs

The OpenMP plots were placed in rows that only exist for hybrid runs, and
ci-report failed.
---
 .../talp_pages/plots/time_series_html_plot.py | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/talp-pages/talp_pages/plots/time_series_html_plot.py b/talp-pages/talp_pages/plots/time_series_html_plot.py
index 16d47c3..deb6869 100644
--- a/talp-pages/talp_pages/plots/time_series_html_plot.py
+++ b/talp-pages/talp_pages/plots/time_series_html_plot.py
@@ -301,45 +301,50 @@ class TimeSeriesHtmlPlot:
             or execution_mode == ExecutionMode.HYBRID
         ):
             #'ompSchedulingEfficiency','ompLoadBalance','ompSerializationEfficiency',
+            # The MPI plots are not present without MPI
+            is_hybrid = execution_mode == ExecutionMode.HYBRID
+            row = 6 if is_hybrid else 4
+            axis = 9 if is_hybrid else 6
+
             metric = "ompParallelEfficiency"
             for region in regions:
                 fig.add_trace(
                     self.__get_scatter(region, metric, region_to_colors[region]),
                     col=1,
-                    row=6,
+                    row=row,
                 )
-            fig["layout"]["yaxis9"]["title"] = "Efficiency [0-1]"
-            fig.update_layout(yaxis9=dict(range=[0, 1]))
+            fig["layout"][f"yaxis{axis}"]["title"] = "Efficiency [0-1]"
+            fig["layout"][f"yaxis{axis}"]["range"] = [0, 1]
 
             metric = "ompSchedulingEfficiency"
             for region in regions:
                 fig.add_trace(
                     self.__get_scatter(region, metric, region_to_colors[region]),
                     col=1,
-                    row=7,
+                    row=row + 1,
                 )
-            fig["layout"]["yaxis10"]["title"] = "Efficiency [0-1]"
-            fig.update_layout(yaxis10=dict(range=[0, 1]))
+            fig["layout"][f"yaxis{axis + 1}"]["title"] = "Efficiency [0-1]"
+            fig["layout"][f"yaxis{axis + 1}"]["range"] = [0, 1]
 
             metric = "ompLoadBalance"
             for region in regions:
                 fig.add_trace(
                     self.__get_scatter(region, metric, region_to_colors[region]),
                     col=3,
-                    row=7,
+                    row=row + 1,
                 )
-            fig["layout"]["yaxis11"]["title"] = "Efficiency [0-1]"
-            fig.update_layout(yaxis11=dict(range=[0, 1]))
+            fig["layout"][f"yaxis{axis + 2}"]["title"] = "Efficiency [0-1]"
+            fig["layout"][f"yaxis{axis + 2}"]["range"] = [0, 1]
 
             metric = "ompSerializationEfficiency"
             for region in regions:
                 fig.add_trace(
                     self.__get_scatter(region, metric, region_to_colors[region]),
                     col=5,
-                    row=7,
+                    row=row + 1,
                 )
-            fig["layout"]["yaxis12"]["title"] = "Efficiency [0-1]"
-            fig.update_layout(yaxis12=dict(range=[0, 1]))
+            fig["layout"][f"yaxis{axis + 3}"]["title"] = "Efficiency [0-1]"
+            fig["layout"][f"yaxis{axis + 3}"]["range"] = [0, 1]
 
         fig.update_traces(mode="markers+lines")
         return fig
-- 
2.43.0


From 23239ec077d5d5df7cb44889a9e6cace1f05d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 082/136] fix: show the newest change of a run folder in
 TALP-Pages

The date of the last data point was used, the newest change was selected
by the commit instead of by the date, and with several runs of the same
resource configuration it was not a single change.
---
 talp-pages/talp_pages/analysis/scaling_analysis.py     | 7 ++-----
 talp-pages/talp_pages/analysis/time_series_analysis.py | 4 +++-
 talp-pages/talp_pages/html/scaling_result_site.py      | 2 +-
 talp-pages/talp_pages/reports/ci_report.py             | 2 +-
 4 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/talp-pages/talp_pages/analysis/scaling_analysis.py b/talp-pages/talp_pages/analysis/scaling_analysis.py
index c5f6182..6efc560 100644
--- a/talp-pages/talp_pages/analysis/scaling_analysis.py
+++ b/talp-pages/talp_pages/analysis/scaling_analysis.py
@@ -168,11 +168,8 @@ class ScalingAnalysis:
                 date = pd.to_datetime(df["timestamp"].to_numpy().squeeze())
                 git_commit = str(df["gitCommitShort"].to_numpy().squeeze())
 
-                try:
-                    if date > latest_date:
-                        latest_date = date
-                        latest_change = (date, git_commit)
-                except TypeError:
+                if latest_date is None or date > latest_date:
+                    latest_date = date
                     latest_change = (date, git_commit)
 
             results.append(
diff --git a/talp-pages/talp_pages/analysis/time_series_analysis.py b/talp-pages/talp_pages/analysis/time_series_analysis.py
index 257db2e..f86a8f7 100644
--- a/talp-pages/talp_pages/analysis/time_series_analysis.py
+++ b/talp-pages/talp_pages/analysis/time_series_analysis.py
@@ -36,7 +36,9 @@ class TimeSeriesAnalysis:
             dataframe = dataframe.sort_values(
                 by=["timestamp", "elapsedTime"], ascending=[False, False]
             )
-            row_of_newest_timestamp = dataframe.loc[dataframe["timestamp"].idxmax()]
+            row_of_newest_timestamp = dataframe.iloc[
+                dataframe["timestamp"].argmax()
+            ]
             date = pd.to_datetime(row_of_newest_timestamp["timestamp"])
 
             git_commit = str(row_of_newest_timestamp["gitCommitShort"])
diff --git a/talp-pages/talp_pages/html/scaling_result_site.py b/talp-pages/talp_pages/html/scaling_result_site.py
index 5b936c2..32832c5 100644
--- a/talp-pages/talp_pages/html/scaling_result_site.py
+++ b/talp-pages/talp_pages/html/scaling_result_site.py
@@ -14,7 +14,7 @@ class ScalingResultSite(HTMLChildPage):
         )
         self.results = results
         self.latest_change = max(
-            [result.latest_change for result in self.results], key=itemgetter(1)
+            [result.latest_change for result in self.results], key=itemgetter(0)
         )  # Get newest change
 
     def get_content(self):
diff --git a/talp-pages/talp_pages/reports/ci_report.py b/talp-pages/talp_pages/reports/ci_report.py
index b3cfa25..fe5df88 100644
--- a/talp-pages/talp_pages/reports/ci_report.py
+++ b/talp-pages/talp_pages/reports/ci_report.py
@@ -77,7 +77,7 @@ class CIReport:
                         site.latest_change
                         for site in [scaling_result_site, *time_series_sites]
                     ],
-                    key=itemgetter(1),
+                    key=itemgetter(0),
                 ),  # Get newest across subsites
             }
             # Write out the things
-- 
2.43.0


From e7cf22f4810a65ba3279610bd54999c155edee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 083/136] fix: accept metadata without timestamp and use
 --git-timestamp

The option was ignored and, without a timestamp, talp metadata always
failed, also with the automatic detection of GitHub. The defaults were
modified by every call.
---
 talp-pages/talp_pages/cli/metadata.py | 29 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/talp-pages/talp_pages/cli/metadata.py b/talp-pages/talp_pages/cli/metadata.py
index f02598b..64c314d 100755
--- a/talp-pages/talp_pages/cli/metadata.py
+++ b/talp-pages/talp_pages/cli/metadata.py
@@ -3,7 +3,7 @@
 import argparse
 import os
 import logging
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from typing import Union
 from talp_pages.io.run_folders import get_run_folders
 import json
@@ -78,13 +78,17 @@ class Metadata:
     is_merge_request: bool
 
     def dict(self) -> dict:
-        return {
+        metadata = {
             "gitCommit": self.git_commit,
             "gitBranch": self.git_branch,
-            "gitTimestamp": self.git_timestamp.replace(tzinfo=None).isoformat(),
             "defaultGitBranch": self.default_git_branch,
             "isMergeRequest": self.is_merge_request,
         }
+        if self.git_timestamp is not None:
+            metadata["gitTimestamp"] = self.git_timestamp.replace(
+                tzinfo=None
+            ).isoformat()
+        return metadata
 
 
 UNKNOWN_METADATA = Metadata(
@@ -92,6 +96,11 @@ UNKNOWN_METADATA = Metadata(
 )
 
 
+def _parse_env_timestamp():
+    timestamp = os.environ.get("CI_COMMIT_TIMESTAMP")
+    return parse_date(timestamp) if timestamp else UNKNOWN_METADATA.git_timestamp
+
+
 def parse_date(date_string: str) -> datetime:
     # workaround until python 3.11 where datetime support reading timeszoned strings
     if date_string.endswith("Z"):
@@ -101,7 +110,7 @@ def parse_date(date_string: str) -> datetime:
 
 
 def get_metadata(args: Union[argparse.Namespace, None]) -> Metadata:
-    metadata = UNKNOWN_METADATA
+    metadata = replace(UNKNOWN_METADATA)
     set_from_cli = False
 
     if args:
@@ -114,6 +123,10 @@ def get_metadata(args: Union[argparse.Namespace, None]) -> Metadata:
             metadata.git_branch = args.git_branch
             set_from_cli = True
 
+        if args.git_timestamp:
+            metadata.git_timestamp = parse_date(args.git_timestamp)
+            set_from_cli = True
+
         if args.is_merge_request:
             metadata.is_merge_request = args.is_merge_request
             set_from_cli = True
@@ -131,9 +144,7 @@ def get_metadata(args: Union[argparse.Namespace, None]) -> Metadata:
         metadata.git_branch = os.environ.get(
             "CI_MERGE_REQUEST_SOURCE_BRANCH_NAME", UNKNOWN_METADATA.git_branch
         )
-        metadata.git_timestamp = parse_date(
-            os.environ.get("CI_COMMIT_TIMESTAMP", UNKNOWN_METADATA.git_timestamp)
-        )
+        metadata.git_timestamp = _parse_env_timestamp()
         metadata.default_git_branch = os.environ.get(
             "CI_DEFAULT_BRANCH", UNKNOWN_METADATA.default_git_branch
         )
@@ -149,9 +160,7 @@ def get_metadata(args: Union[argparse.Namespace, None]) -> Metadata:
         metadata.git_branch = os.environ.get(
             "CI_COMMIT_BRANCH", UNKNOWN_METADATA.git_branch
         )
-        metadata.git_timestamp = parse_date(
-            os.environ.get("CI_COMMIT_TIMESTAMP", UNKNOWN_METADATA.git_timestamp)
-        )
+        metadata.git_timestamp = _parse_env_timestamp()
         metadata.is_merge_request = False
         logging.info("Auto detected Metadata from GITLAB normal pipeline")
         return metadata
-- 
2.43.0


From ed53284cbfae55e8a74257908c49b6fae598a8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 084/136] fix: do not fail to generate the badge of a zero
 parallel efficiency

It is also the value used if the region is not found in some resource
configuration.
---
 talp-pages/talp_pages/svg/badge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/talp-pages/talp_pages/svg/badge.py b/talp-pages/talp_pages/svg/badge.py
index 39c5cdb..c3c7c36 100644
--- a/talp-pages/talp_pages/svg/badge.py
+++ b/talp-pages/talp_pages/svg/badge.py
@@ -9,7 +9,7 @@ class Badge:
         self.file_name = f"badge_{rc}.svg"
 
     def get_content(self):
-        if not self.result.parallel_eff:
+        if self.result.parallel_eff is None:
             raise ValueError("Empty result passed to Badge")
         parallel_efficiency = round(self.result.parallel_eff, 2)
         if self.result.parallel_eff < 0.6:
-- 
2.43.0


From 88d2601b17f5fbc03f43169157a349d27a5f6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:09 +0000
Subject: [PATCH 085/136] fix: accept TALP files with metadata but no commit in
 TALP-Pages

---
 talp-pages/talp_pages/io/dataframe_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/talp-pages/talp_pages/io/dataframe_handling.py b/talp-pages/talp_pages/io/dataframe_handling.py
index e0364fc..1f854b6 100644
--- a/talp-pages/talp_pages/io/dataframe_handling.py
+++ b/talp-pages/talp_pages/io/dataframe_handling.py
@@ -54,7 +54,8 @@ def __load_talp_json_3_5(json_input, json_path):
     df["metadata"] = json.dumps(metadata)
 
     if metadata:
-        df["gitCommitShort"] = metadata["gitCommit"][:7]  # Git Short shas have 7 chars
+        # Git Short shas have 7 chars
+        df["gitCommitShort"] = metadata.get("gitCommit", "")[:7]
         try:
             df["gitTimestamp"] = pd.to_datetime(metadata["gitTimestamp"])
             df["timestamp"] = pd.to_datetime(metadata["gitTimestamp"])
-- 
2.43.0


From 29d49b411aeaa1b690b902ccea3ce1f7d3c2dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:20 +0000
Subject: [PATCH 086/136] fix: accept runs with and without git timestamp in
 the same folder

The missing timestamps were filled with a number and ci-report failed.
---
 talp-pages/talp_pages/analysis/scaling_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/talp-pages/talp_pages/analysis/scaling_analysis.py b/talp-pages/talp_pages/analysis/scaling_analysis.py
index 6efc560..3042c34 100644
--- a/talp-pages/talp_pages/analysis/scaling_analysis.py
+++ b/talp-pages/talp_pages/analysis/scaling_analysis.py
@@ -149,8 +149,11 @@ class ScalingAnalysis:
                 clean_df[clean_df["ressourceLabel"] == combination]
                 .sort_values(by=["timestamp"], ascending=False)
                 .head(1)
-                .fillna(np.inf)
+                .copy()
             )
+            # other columns, like the git timestamp, may be missing in some runs
+            numeric_columns = datapoint.select_dtypes("number").columns
+            datapoint[numeric_columns] = datapoint[numeric_columns].fillna(np.inf)
             df_datapoints.append(datapoint)
         return (pd.DataFrame(), df_datapoints, scaling_mode, ressource_combinations)
 
-- 
2.43.0


From 19f4649a0774a9686783c5db6d7e603ee429c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:20 +0000
Subject: [PATCH 087/136] fix: escape region names and metadata in the HTML of
 TALP-Pages

---
 talp-pages/talp_pages/html/site.py                     | 4 +++-
 talp-pages/talp_pages/html/templates/scaling.jinja     | 2 +-
 talp-pages/talp_pages/html/templates/time_series.jinja | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/talp-pages/talp_pages/html/site.py b/talp-pages/talp_pages/html/site.py
index 65d0b75..987b031 100644
--- a/talp-pages/talp_pages/html/site.py
+++ b/talp-pages/talp_pages/html/site.py
@@ -15,7 +15,9 @@ class HTMLSite:
                 "home": "index.html",
             }
         }
-        self.jinja_env = Environment(loader=FileSystemLoader(TALP_PAGES_TEMPLATE_PATH))
+        self.jinja_env = Environment(
+            loader=FileSystemLoader(TALP_PAGES_TEMPLATE_PATH), autoescape=True
+        )
         self.template_name = template_name
         self.template = self.jinja_env.get_template(self.template_name)
         self.file_name = file_name
diff --git a/talp-pages/talp_pages/html/templates/scaling.jinja b/talp-pages/talp_pages/html/templates/scaling.jinja
index cba1e6b..40dfc13 100644
--- a/talp-pages/talp_pages/html/templates/scaling.jinja
+++ b/talp-pages/talp_pages/html/templates/scaling.jinja
@@ -23,7 +23,7 @@
   <div class="row py-2">
     <h3 class="mx-4" id="{{region.name}}">Region: <span class="font-monospace">{{region.name}}</span></h3>
     <div class="col-md-12">
-      {{ region.figure }}
+      {{ region.figure | safe }}
       <div class="mx-4">
         <h4>Raw-data used to generate the above table:</h4>
         <table class="table table-sm">
diff --git a/talp-pages/talp_pages/html/templates/time_series.jinja b/talp-pages/talp_pages/html/templates/time_series.jinja
index 5ea740b..0c1e199 100644
--- a/talp-pages/talp_pages/html/templates/time_series.jinja
+++ b/talp-pages/talp_pages/html/templates/time_series.jinja
@@ -9,7 +9,7 @@
     </div>
     <div class="row mt-3 mx-5">
       <div class="col-md-12 px-5">
-          {{ figure }}
+          {{ figure | safe }}
       </div>
     </div>
   </div>
-- 
2.43.0


From 1e88ea06c353f4e3e458c27bbef8431f13056596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:11 +0000
Subject: [PATCH 088/136] fix: compute the scaling metrics of all the runs in
 TALP-Pages

The reference case was a dataframe, and only the runs whose row had the
same index as the reference got their metrics computed.
---
 talp-pages/talp_pages/analysis/scaling_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/talp-pages/talp_pages/analysis/scaling_analysis.py b/talp-pages/talp_pages/analysis/scaling_analysis.py
index 3042c34..df0c3f4 100644
--- a/talp-pages/talp_pages/analysis/scaling_analysis.py
+++ b/talp-pages/talp_pages/analysis/scaling_analysis.py
@@ -103,7 +103,8 @@ class ScalingAnalysis:
 
         clean_df.loc[:, "scalingMode"] = scaling_mode.value
 
-        reference_case = df_datapoints[0]
+        # Use the values, a dataframe would be aligned by index in the operations
+        reference_case = df_datapoints[0].iloc[0]
 
         if scaling_mode == ScalingMode.STRONG:
             # Assume instructions stay constant
-- 
2.43.0


From afd155b8cdec68fa1266878dc1523393d2ba15d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 089/136] fix: do not finalize in DLB_Finalize the shared
 memories that DLB_Init did not initialize

---
 src/LB_core/DLB_kernel.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index c55f1ce..870c38b 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -243,12 +243,14 @@ int Finish(subprocess_descriptor_t *spd) {
     }
     if (spd->lb_policy == POLICY_LEWI_MASK
             || spd->options.drom
-            || spd->options.talp
-            || spd->options.ompt
             || spd->options.preinit_pid) {
         shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
         shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
                 spd->options.shm_key);
+    } else if (spd->options.talp) {
+        /* cpuinfo was not initialized */
+        shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
+                spd->options.shm_key);
     }
     if (spd->options.mode == MODE_ASYNC) {
         shmem_async_finalize(spd->id);
-- 
2.43.0


From d237a313e024c97b59ca87678044353c12566e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 090/136] fix: leave the shared memories if DLB_Init cannot
 create the helper thread

---
 src/LB_core/DLB_kernel.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 870c38b..d84262d 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -173,7 +173,22 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
     }
     if (spd->options.mode == MODE_ASYNC) {
         error = shmem_async_init(spd->id, &spd->pm, &spd->process_mask, spd->options.shm_key);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            /* Finalize what has been initialized so far */
+            if (spd->options.barrier) {
+                node_barrier_finalize(spd);
+                shmem_barrier__finalize(spd->options.shm_key);
+            }
+            if (mask_is_needed) {
+                shmem_cpuinfo__finalize(spd->id, spd->options.shm_key,
+                        spd->options.lewi_color);
+            }
+            if (mask_is_needed || spd->options.talp) {
+                shmem_procinfo__finalize(spd->id, /* return_stolen */ false,
+                        spd->options.shm_key);
+            }
+            return error;
+        }
     }
 
     // Initialise LeWI
-- 
2.43.0


From 3c451a9aa98287c7e5f06891fa2120e1c092fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 091/136] fix: do not allow to enable or disable TALP after
 DLB_Init with DLB_SetVariable

---
 src/support/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/options.c b/src/support/options.c
index 575374f..f33a60c 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -108,7 +108,7 @@ static const opts_dict_t options_dictionary[] = {
                           OFFSET"metrics at run time.",
         .offset         = offsetof(options_t, talp),
         .type           = OPT_BOOL_T,
-        .flags          = OPT_OPTIONAL
+        .flags          = OPT_READONLY | OPT_OPTIONAL
     },{
         .var_name       = "LB_BARRIER",
         .arg_name       = "--barrier",
-- 
2.43.0


From ecddef7dbfd7845835e25ab4731e27e7dbf3d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 092/136] fix: accept DLB_TALP_GetTimes in a thread that has
 not called DLB before

---
 src/apis/DLB_interface_talp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index a3fe98b..468c88a 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -81,7 +81,8 @@ int DLB_TALP_GetTimes(int pid, double *mpi_time, double *useful_time) {
 
     int error;
 
-    if (pid == 0 || (thread_spd && thread_spd->id == pid)) {
+    spd_enter_dlb(thread_spd);
+    if (pid == 0 || thread_spd->id == pid) {
         /* Same process */
         const dlb_monitor_t *monitor = monitoring_region_get_global_region(thread_spd);
         if (monitor != NULL) {
-- 
2.43.0


From 54b139fee6838875b36501137c5f7fc4d9333f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 093/136] fix: initialize the subprocess descriptor in
 DLB_Init_sp

---
 src/apis/DLB_interface_sp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface_sp.c b/src/apis/DLB_interface_sp.c
index b5b3f83..5356037 100644
--- a/src/apis/DLB_interface_sp.c
+++ b/src/apis/DLB_interface_sp.c
@@ -39,7 +39,7 @@ static int get_atomic_spid(void) {
 /* Status */
 
 dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_args) {
-    subprocess_descriptor_t *spd = malloc(sizeof(subprocess_descriptor_t));
+    subprocess_descriptor_t *spd = calloc(1, sizeof(subprocess_descriptor_t));
     spd->dlb_initialized = true;
     spd_register(spd);
     spd_enter_dlb(spd);
-- 
2.43.0


From af083d50c22b7dbfb02506d650af391c4e5de3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 094/136] fix: do not keep the cpuset options of a previous
 DLB_Init nor change them when printing

---
 src/LB_comm/shmem_cpuinfo.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 07a0f58..0ee41b1 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -447,15 +447,13 @@ int shmem_cpuinfo__init(pid_t pid, pid_t preinit_pid, const cpu_set_t *process_m
         const char *shmem_key, int shmem_color) {
     int error = DLB_SUCCESS;
 
-    // Update post_mortem preference
-    if (thread_spd && thread_spd->options.debug_opts & DBG_LPOSTMORTEM) {
-        cpu_is_public_post_mortem = true;
-    }
+    if (thread_spd) {
+        // Respect cpuset (options may be different than those of a previous init)
+        respect_cpuset = thread_spd->options.lewi_respect_cpuset;
 
-    // Respect cpuset
-    if (thread_spd && !thread_spd->options.lewi_respect_cpuset) {
-        respect_cpuset = false;
-        cpu_is_public_post_mortem = true;
+        // Update post_mortem preference
+        cpu_is_public_post_mortem = !respect_cpuset
+            || thread_spd->options.debug_opts & DBG_LPOSTMORTEM;
     }
 
     // Shared memory creation
@@ -2306,10 +2304,9 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
     int rows = (node_size+columns-1) / columns;
     int cpus_per_column = rows;
 
-    /* Update flag here in case this is an external process */
-    if (thread_spd && !thread_spd->options.lewi_respect_cpuset) {
-        respect_cpuset = false;
-    }
+    /* Check also the options here in case this is an external process */
+    bool print_respect_cpuset = respect_cpuset
+        && !(thread_spd && !thread_spd->options.lewi_respect_cpuset);
 
     int row;
     for (row=0; row<rows; ++row) {
@@ -2328,7 +2325,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
                 cpu_state_t state = cpuinfo->state;
                 if (color) {
                     const char *code_color =
-                        state == CPU_DISABLED && respect_cpuset ? ANSI_COLOR_RESET :
+                        state == CPU_DISABLED && print_respect_cpuset ? ANSI_COLOR_RESET :
                         state == CPU_BUSY && guest == owner     ? ANSI_COLOR_RED :
                         state == CPU_BUSY                       ? ANSI_COLOR_YELLOW :
                         guest == NOBODY                         ? ANSI_COLOR_GREEN :
-- 
2.43.0


From 11d60759ed76ce09e9fce564acdbfc4efde35e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:26 +0000
Subject: [PATCH 095/136] fix: do not abort if --lewi-affinity is set to none
 after DLB_Init

---
 src/LB_policies/lewi_mask.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index ea162b8..8012753 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -110,6 +110,9 @@ static void lewi_mask_UpdateOwnershipInfo(const subprocess_descriptor_t *spd,
             array_cpuid_t_push(cpus_priority_array, cpuid);
         } else {
             switch (lewi_affinity) {
+                case LEWI_AFFINITY_NONE:
+                    /* LEWI_AFFINITY_NONE in DLB_Init forces LeWI without mask support,
+                     * here it can only come from a later DLB_SetVariable */
                 case LEWI_AFFINITY_AUTO:
                 case LEWI_AFFINITY_MASK:
                 case LEWI_AFFINITY_NEARBY_FIRST:
@@ -123,10 +126,6 @@ static void lewi_mask_UpdateOwnershipInfo(const subprocess_descriptor_t *spd,
                 case LEWI_AFFINITY_SPREAD_IFEMPTY:
                     // This case cannot be pre-computed
                     break;
-                case LEWI_AFFINITY_NONE:
-                    /* LEWI_AFFINITY_NONE should force LeWI without mask support */
-                    fatal("Unhandled LEWI_AFFINITY_NONE in LeWI mask. "
-                            "Please report bug");
             }
         }
     }
-- 
2.43.0


From 68390a83aec21f921a908e5c156b75bba166fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:39 +0000
Subject: [PATCH 096/136] fix: do not detach from a TALP shared memory that
 could not be initialized

---
 src/LB_core/DLB_talp.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 4326d08..4c6e038 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -626,7 +626,11 @@ void talp_init(subprocess_descriptor_t *spd) {
          */
         int shmem_size_multiplier = spd->options.shm_size_multiplier
             * (talp_info->flags.have_shmem ? DEFAULT_REGIONS_PER_PROC : 1);
-        shmem_talp__init(spd->options.shm_key, shmem_size_multiplier);
+        if (shmem_talp__init(spd->options.shm_key, shmem_size_multiplier) < DLB_SUCCESS) {
+            /* Continue without shmem, a warning has already been displayed */
+            talp_info->flags.have_shmem = false;
+            talp_info->flags.have_minimal_shmem = false;
+        }
     }
 
     /* Initialize global region monitor
@@ -2266,10 +2270,13 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     bool resume_region = monitoring_region_stop(spd, monitor) == DLB_SUCCESS;
 
     /* This functionality needs a shared memory, create a temporary one if needed */
+    bool have_temporary_shmem = false;
     if (!talp_info->flags.have_shmem) {
-        shmem_talp__init(spd->options.shm_key, 1);
-        shmem_talp__register(spd->id, monitor->avg_cpus, monitor->name,
-                &monitor_data->node_shared_id);
+        have_temporary_shmem = shmem_talp__init(spd->options.shm_key, 1) == DLB_SUCCESS;
+        if (have_temporary_shmem || talp_info->flags.have_minimal_shmem) {
+            shmem_talp__register(spd->id, monitor->avg_cpus, monitor->name,
+                    &monitor_data->node_shared_id);
+        }
     }
 
     /* Update the shared memory with this process' metrics */
@@ -2288,7 +2295,9 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
         /* Everyone must have computed their metrics before removing any region */
         node_barrier(spd, NULL);
 
-        if (talp_info->flags.have_minimal_shmem) {
+        if (!have_temporary_shmem) {
+            /* Nothing to remove */
+        } else if (talp_info->flags.have_minimal_shmem) {
             /* The minimal shmem is still needed until TALP finalizes */
             shmem_talp_ext__finalize();
         } else {
-- 
2.43.0


From 4e3e81816f7309e569ad1f13cf6c47f71ecbd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:19 +0000
Subject: [PATCH 097/136] fix: register the process in a shared memory full of
 dead processes

---
 src/LB_comm/shmem.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index a78b39e..b2588ee 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -56,13 +56,9 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
         void (*cleanup_fn)(void*,int), void *shdata) {
     bool registered = false;
     int i;
+    /* Clean up first, the list may be full of processes that do not exist */
     for(i=0; i<mu_get_system_size(); ++i) {
-        if (pidlist[i] == 0) {
-            if (!registered) {
-                pidlist[i] = pid;
-                registered = true;
-            }
-        } else {
+        if (pidlist[i] != 0) {
             if (kill(pidlist[i], 0) == -1) {
                 /* Process pidlist[i] is registered and does not exist */
                 if (cleanup_fn) {
@@ -80,6 +76,12 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
             }
         }
     }
+    for(i=0; i<mu_get_system_size() && !registered; ++i) {
+        if (pidlist[i] == 0) {
+            pidlist[i] = pid;
+            registered = true;
+        }
+    }
     return registered;
 }
 
-- 
2.43.0


From 8312543dcbff7b0717a18345e25c21413a2f238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:19 +0000
Subject: [PATCH 098/136] fix: release the lock of an incompatible shared
 memory

---
 src/LB_comm/shmem.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index b2588ee..d350977 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -98,11 +98,13 @@ static bool shmem_consistency_remove_pid(pid_t *pidlist, pid_t pid) {
     return last_one;
 }
 
-static void shmem_consistency_check_version(unsigned int creator_version,
-        unsigned int process_version) {
-    if (creator_version != SHMEM_VERSION_IGNORE) {
-        fatal_cond(creator_version != process_version,
-                "The existing DLB shared memory version differs from the expected one.\n"
+static void shmem_consistency_check_version(shmem_sync_t *shsync,
+        unsigned int creator_version, unsigned int process_version) {
+    if (creator_version != SHMEM_VERSION_IGNORE
+            && creator_version != process_version) {
+        /* Other processes may still use the shared memory */
+        pthread_mutex_unlock(&shsync->shmem_mutex);
+        fatal("The existing DLB shared memory version differs from the expected one.\n"
                 "This may have been caused by a DLB version upgrade in between runs.\n"
                 "Please, run 'dlb_shm --delete' and try again.\n"
                 "Contact us at " PACKAGE_BUGREPORT " if the issue persists.");
@@ -227,8 +229,10 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     } else if (error != 0) {
         fatal("pthread_mutex_timedlock error: %s", strerror(error));
     }
-    shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
-    shmem_consistency_check_version(handler->shsync->shmem_version, shmem_props->version);
+    shmem_consistency_check_version(handler->shsync,
+            handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
+    shmem_consistency_check_version(handler->shsync,
+            handler->shsync->shmem_version, shmem_props->version);
     shmem_consistency_check_pids(handler->shsync->pidlist, pid, shmem_props->cleanup_fn, *shdata);
     pthread_mutex_unlock(&handler->shsync->shmem_mutex);
 
-- 
2.43.0


From af50e3a64ba05311a1bce133e2f2f9eb034d36cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:19 +0000
Subject: [PATCH 099/136] fix: do not wait forever for a shared memory whose
 creator crashed

---
 src/LB_comm/shmem.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index d350977..5b64795 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -209,8 +209,21 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
 
         handler->shsync->initialized = 1;
     } else {
-        /* Shared Memory already created */
-        while(!handler->shsync->initialized) __sync_synchronize();
+        /* Shared Memory already created, the creator should be about to initialize it */
+        struct timespec start, now;
+        get_time(&start);
+        while(!handler->shsync->initialized) {
+            __sync_synchronize();
+            get_time(&now);
+            if (timespec_diff(&start, &now) > SHMEM_TIMEOUT_SECONDS*1000000000LL
+                    && !handler->shsync->initialized) {
+                fatal("DLB shared memory has not been initialized.\n"
+                        "This may have been caused by a previous process crashing"
+                        " while creating the DLB shared memory.\n"
+                        "Please, run 'dlb_shm --delete' and try again.\n"
+                        "Contact us at " PACKAGE_BUGREPORT " if the issue persists.");
+            }
+        }
         verbose(VB_SHMEM, "Attached to Shared Memory (%s)", shmem_module);
     }
 
-- 
2.43.0


From 5bd55259298a6b8b836105341bdbb81b5ed8160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:36 +0000
Subject: [PATCH 100/136] fix: do not attach to a shared memory that is being
 removed

---
 src/LB_comm/shmem.c | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 5b64795..500ece0 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -154,6 +154,7 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     int shmem_color = shmem_props->color;
     get_shmem_filename(handler->shm_filename, shmem_module, shmem_key, shmem_color);
 
+attach:;
     /* Obtain a file descriptor for the shmem */
     int fd = shm_open(handler->shm_filename, O_CREAT | O_RDWR, S_IRUSR | S_IWUSR);
     if (fd == -1) {
@@ -177,9 +178,6 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("mmap error: %s",  strerror(errno));
     }
 
-    /* The mapping does not need the file descriptor */
-    close(fd);
-
     /* Set the address for both structs */
     handler->shsync = (shmem_sync_t*) handler->shm_addr;
     *shdata = handler->shm_addr + shsync_size;
@@ -242,6 +240,26 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     } else if (error != 0) {
         fatal("pthread_mutex_timedlock error: %s", strerror(error));
     }
+
+    /* The shared memory is removed, with the lock acquired, by the last process
+     * that leaves it. If it has happened in the meantime, start again. */
+    if (fstat(fd, &shm_stat) == -1) {
+        fatal("fstat error: %s", strerror(errno));
+    }
+    bool removed = shm_stat.st_nlink == 0;
+
+    /* The mapping does not need the file descriptor */
+    close(fd);
+
+    if (removed) {
+        verbose(VB_SHMEM, "Shared Memory was removed, attaching again (%s)", shmem_module);
+        pthread_mutex_unlock(&handler->shsync->shmem_mutex);
+        if (munmap(handler->shm_addr, handler->shm_size) != 0) {
+            fatal("munmap error: %s", strerror(errno));
+        }
+        goto attach;
+    }
+
     shmem_consistency_check_version(handler->shsync,
             handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
     shmem_consistency_check_version(handler->shsync,
@@ -263,6 +281,14 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
     bool is_empty = is_empty_fn ? is_empty_fn() : true;
     bool is_last_one = shmem_consistency_remove_pid(handler->shsync->pidlist, getpid());
     bool delete_shmem = is_empty && is_last_one;
+
+    /* Only the last process unlinks shmem, before any other can attach to it */
+    if (delete_shmem) {
+        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
+        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
+            fatal("shm_unlink error: %s", strerror(errno));
+        }
+    }
     shmem_unlock(handler);
 
     /* Here we should destroy the pthread mutex but another process may open
@@ -274,14 +300,6 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
         fatal("munmap error: %s", strerror(errno));
     }
 
-    /* Only the last process unlinks shmem */
-    if (delete_shmem) {
-        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
-        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
-            fatal("shm_unlink error: %s", strerror(errno));
-        }
-    }
-
     free(handler);
 }
 
-- 
2.43.0


From b8a1a0040c8fe94c616ced6237efef13d37b6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:15 +0000
Subject: [PATCH 101/136] fix: return the CPUs of a crashed process in async
 LeWI

---
 src/LB_comm/shmem_lewi_async.c | 49 +++++++++++++++++++++++++++++++---
 src/LB_comm/shmem_lewi_async.h |  2 ++
 src/LB_policies/lewi_async.c   | 13 ++++++++-
 3 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index a9cdd6e..e60cf4a 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -57,11 +57,17 @@ static int subprocesses_attached = 0;
 static int max_processes;
 static lewi_process_t *my_process = NULL;
 
+/* Processes affected by the clean up of other processes that do not exist */
+static lewi_request_t *cleanup_requests = NULL;
+static unsigned int num_cleanup_requests = 0;
+
 
 static void lend_ncpus_to_shmem(unsigned int ncpus, lewi_request_t *requests,
         unsigned int *nreqs, unsigned int maxreqs);
 static int reclaim_from_shmem(lewi_process_t *process, unsigned int ncpus,
         lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs);
+static int reset_process(lewi_process_t *process, lewi_request_t *requests,
+        unsigned int *nreqs, unsigned int maxreqs, unsigned int *prev_requested);
 
 /*********************************************************************************/
 /*  Shared memory management                                                     */
@@ -69,8 +75,27 @@ static int reclaim_from_shmem(lewi_process_t *process, unsigned int ncpus,
 
 static void cleanup_shmem(void *shdata_ptr, int pid) {
     lewi_async_shdata_t *shared_data = shdata_ptr;
-    if (shared_data->attached_nprocs > 0) {
-        --shared_data->attached_nprocs;
+    for (unsigned int p = 0; p < shared_data->proc_list_head; ++p) {
+        lewi_process_t *process = &shared_data->processes[p];
+        if (process->pid == pid) {
+            /* Return the CPUs of other processes, and recover its own */
+            unsigned int max_requests = mu_get_system_size();
+            lewi_request_t *requests = realloc(cleanup_requests,
+                    sizeof(lewi_request_t) * (num_cleanup_requests + max_requests));
+            fatal_cond(!requests, "realloc failed in %s", __func__);
+            cleanup_requests = requests;
+            unsigned int nreqs;
+            unsigned int prev_requested;
+            reset_process(process, &requests[num_cleanup_requests], &nreqs,
+                    max_requests, &prev_requested);
+            num_cleanup_requests += nreqs;
+
+            /* Remove process data */
+            *process = (const lewi_process_t) {};
+            if (shared_data->attached_nprocs > 0) {
+                --shared_data->attached_nprocs;
+            }
+        }
     }
 }
 
@@ -173,7 +198,7 @@ void shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key
 
     shmem_lock(shm_handler);
     {
-        if (++shdata->attached_nprocs == 1) {
+        if (shdata->attached_nprocs == 0) {
             // first attached process, initialize common structures
             shdata->idle_cpus = 0;
             queue_lewi_reqs_init(&shdata->requests);
@@ -198,11 +223,28 @@ void shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key
                 .current_ncpus = ncpus,
             };
             my_process = process;
+            ++shdata->attached_nprocs;
         }
     }
     shmem_unlock(shm_handler);
 }
 
+/* Obtain the processes, and their current number of CPUs, that have been modified
+ * if this process has cleaned up the shared memory while attaching to it.
+ * Return the number of them, the returned array must be freed. */
+unsigned int shmem_lewi_async__get_cleanup_requests(lewi_request_t **requests) {
+    unsigned int nreqs;
+    pthread_mutex_lock(&mutex);
+    {
+        *requests = cleanup_requests;
+        nreqs = num_cleanup_requests;
+        cleanup_requests = NULL;
+        num_cleanup_requests = 0;
+    }
+    pthread_mutex_unlock(&mutex);
+    return nreqs;
+}
+
 
 /*********************************************************************************/
 /*  Finalize                                                                     */
@@ -276,6 +318,7 @@ void shmem_lewi_async__finalize(pid_t pid, unsigned int *new_ncpus,
         lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs) {
 
     *nreqs = 0;
+    *new_ncpus = 0;
 
     if (shm_handler == NULL) return;
 
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index 5200118..de9907a 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -34,6 +34,8 @@ unsigned int shmem_lewi_async__get_num_requests(pid_t pid);
 
 void shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key);
 
+unsigned int shmem_lewi_async__get_cleanup_requests(lewi_request_t **requests);
+
 void shmem_lewi_async__finalize(pid_t pid, unsigned int *new_ncpus,
         lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs);
 
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 72e4cd1..a287bb5 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -99,6 +99,15 @@ int lewi_async_Init(subprocess_descriptor_t *spd) {
     // Initialize shared memory
     shmem_lewi_async__init(spd->id, initial_ncpus, spd->options.shm_key);
 
+    /* Trigger other processes' helper thread if some process that did not finalize
+     * has been cleaned up */
+    lewi_request_t *requests;
+    unsigned int num_requests = shmem_lewi_async__get_cleanup_requests(&requests);
+    for (unsigned int i=0; i<num_requests; ++i) {
+        shmem_async_set_num_cpus(requests[i].pid, requests[i].howmany);
+    }
+    free(requests);
+
     return DLB_SUCCESS;
 }
 
@@ -111,7 +120,9 @@ int lewi_async_Finalize(subprocess_descriptor_t *spd) {
             &num_requests, node_size);
 
     /* Set num_threads = new_ncpus */
-    lewi_async_set_num_threads(&spd->pm, new_ncpus);
+    if (new_ncpus > 0) {
+        lewi_async_set_num_threads(&spd->pm, new_ncpus);
+    }
 
     /* Trigger other processes's helper thread */
     for (unsigned int i=0; i<num_requests; ++i) {
-- 
2.43.0


From 980979d3caae03492c9d325a121a7795b2ea7257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:47 +0000
Subject: [PATCH 102/136] fix: remove the global requests of a crashed process

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 0ee41b1..bb65874 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -340,6 +340,11 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
         cpuinfo_t *cpuinfo = &shared_data->node_info[cpuid];
         deregister_cpu(cpuinfo, pid);
     }
+
+    // Remove any previous global request
+    if (shared_data->flags.queues_enabled) {
+        queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
+    }
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From c38ea05a06fe89f51395970dd67de710b75a1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:39 +0000
Subject: [PATCH 103/136] fix: update only the barriers in use when cleaning up
 a crashed process

---
 src/LB_comm/shmem_barrier.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 65f979f..1e0aece 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -71,9 +71,23 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     int i;
     for (i = 0; i < max_barriers; i++) {
         barrier_t *barrier = &shared_data->barriers[i];
+        if (!barrier->flags.initialized || barrier->participants == 0) {
+            continue;
+        }
         if (--barrier->participants == 0) {
             *barrier = (const barrier_t){};
         }
+        /* If the barrier is not being used, create it again with the number of
+         * participants updated */
+        else if (pthread_rwlock_trywrlock(&barrier->rwlock) == 0) {
+            pthread_barrier_destroy(&barrier->barrier);
+            pthread_barrierattr_t attr;
+            pthread_barrierattr_init(&attr);
+            pthread_barrierattr_setpshared(&attr, PTHREAD_PROCESS_SHARED);
+            pthread_barrier_init(&barrier->barrier, &attr, barrier->participants);
+            pthread_barrierattr_destroy(&attr);
+            pthread_rwlock_unlock(&barrier->rwlock);
+        }
     }
 }
 
-- 
2.43.0


From 78f082375eeb9d3dfc99b88ddbc0b13bc43833de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:39 +0000
Subject: [PATCH 104/136] fix: do not block if a fatal error occurs while
 cleaning up

---
 src/support/debug.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/support/debug.c b/src/support/debug.c
index 91f0e0c..ea2cc17 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -309,6 +309,11 @@ static void clean_shmems(pid_t id, const char *shmem_key, int lewi_color) {
 }
 
 void dlb_clean(void) {
+    /* Some fatal error has occurred while cleaning */
+    static __thread bool cleaning = false;
+    if (cleaning) return;
+
+    cleaning = true;
     pthread_mutex_lock(&dlb_clean_mutex);
     {
         /* First, try to finalize shmems of registered subprocess */
@@ -344,6 +349,7 @@ void dlb_clean(void) {
         }
     }
     pthread_mutex_unlock(&dlb_clean_mutex);
+    cleaning = false;
 }
 
 /* Trigger warning on some errors, tipically common or complex errors during init */
-- 
2.43.0


From b2ab9d4e2e52e0e6750d93a1cf97f1b5b3c8d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:05 +0000
Subject: [PATCH 105/136] fix: exit with the status of the application in
 dlb_run and dlb_taskset

---
 src/utils/dlb_run.c     | 13 +++++++------
 src/utils/dlb_taskset.c |  9 ++++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/utils/dlb_run.c b/src/utils/dlb_run.c
index 700bbe3..7b78bc7 100644
--- a/src/utils/dlb_run.c
+++ b/src/utils/dlb_run.c
@@ -106,9 +106,10 @@ static void __attribute__((__noreturn__)) usage(const char *program, FILE *out)
     exit(out == stderr ? EXIT_FAILURE : EXIT_SUCCESS);
 }
 
-/* Wait for child process to finalize, print status if needed, and finalize DLB */
-static void wait_child(void) {
-    int status;
+/* Wait for child process to finalize, print status if needed, and finalize DLB.
+ * Return the exit status that corresponds to the child, as a shell would do. */
+static int wait_child(void) {
+    int status = 0;
     wait(&status);
     if (WIFEXITED(status) && verbose){
         dlb_run_info(stdout, "Child ended normally, return code: %d\n", WEXITSTATUS(status));
@@ -124,6 +125,8 @@ static void wait_child(void) {
         // DLB_ERR_NOPROC must be ignored here
         dlb_check(error, __FUNCTION__);
     }
+
+    return WIFSIGNALED(status) ? 128 + WTERMSIG(status) : WEXITSTATUS(status);
 }
 
 /* This signal handler is called after X seconds while trying to correctly
@@ -192,9 +195,7 @@ static void __attribute__((__noreturn__)) execute(char **argv) {
         exit(EXIT_FAILURE);
     }
 
-    wait_child();
-
-    exit(EXIT_SUCCESS);
+    exit(wait_child());
 }
 
 
diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index 12c0d40..a25332f 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -184,7 +184,8 @@ static void set_affinity(pid_t pid, const cpu_set_t *new_mask, bool borrow, bool
     fprintf(stdout, "PID %d's affinity set to: %s\n", pid, mu_to_str(new_mask));
 }
 
-static void execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
+/* Return the exit status that corresponds to the child, as a shell would do */
+static int execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
     sched_setaffinity(0, sizeof(cpu_set_t), new_mask);
     pid_t pid = fork();
     if (pid < 0) {
@@ -201,7 +202,8 @@ static void execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
         fprintf(stderr, "Failed to execute %s\n", argv[0]);
         exit(EXIT_FAILURE);
     } else {
-        wait(NULL);
+        int status = 0;
+        waitpid(pid, &status, 0);
         DLB_DROM_Attach();
         int error = DLB_DROM_PostFinalize(pid, borrow);
         if (error != DLB_SUCCESS && error != DLB_ERR_NOPROC) {
@@ -209,6 +211,7 @@ static void execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
             dlb_check(error, pid, __FUNCTION__);
         }
         DLB_DROM_Detach();
+        return WIFSIGNALED(status) ? 128 + WTERMSIG(status) : WEXITSTATUS(status);
     }
 }
 
@@ -402,7 +405,7 @@ int main(int argc, char *argv[]) {
     else if (do_execute) {
         argv += optind;
         if (!do_set) sched_getaffinity(0, sizeof(cpu_set_t), &cpu_list);
-        execute(argv, &cpu_list, borrow);
+        return execute(argv, &cpu_list, borrow);
     }
     else if (do_remove) {
         remove_affinity(pid, &cpu_list, free_slurm);
-- 
2.43.0


From 11c63c24923d559126527c938955f6eba8c0c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:05 +0000
Subject: [PATCH 106/136] fix: reject invalid PIDs and CPU lists in dlb_taskset

---
 src/utils/dlb_taskset.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index a25332f..c152d3a 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -173,6 +173,13 @@ static void __attribute__((__noreturn__)) usage(const char *program, FILE *out)
     exit(out == stderr ? EXIT_FAILURE : EXIT_SUCCESS);
 }
 
+/* Parse a positive decimal number, or return 0 if not valid */
+static pid_t parse_pid(const char *str) {
+    char *endptr;
+    long value = strtol(str, &endptr, 10);
+    return *str != '\0' && *endptr == '\0' && value > 0 && value <= INT_MAX ? value : 0;
+}
+
 static void set_affinity(pid_t pid, const cpu_set_t *new_mask, bool borrow, bool free_slurm) {
     DLB_DROM_Attach();
     dlb_drom_flags_t flags = borrow ? DLB_RETURN_STOLEN : 0;
@@ -360,17 +367,29 @@ int main(int argc, char *argv[]) {
             case 's':
                 do_set = true;
                 mu_parse_mask(optarg, &cpu_list);
+                if (CPU_COUNT(&cpu_list) == 0) {
+                    fprintf(stderr, "Invalid CPU list: %s\n", optarg);
+                    usage(argv[0], stderr);
+                }
                 break;
             case 'r':
                 do_remove = true;
                 mu_parse_mask(optarg, &cpu_list);
+                if (CPU_COUNT(&cpu_list) == 0) {
+                    fprintf(stderr, "Invalid CPU list: %s\n", optarg);
+                    usage(argv[0], stderr);
+                }
                 break;
             case 'g':
                 do_getpid = true;
                 process_pseudo_id = strtoul(optarg, NULL, 10);
                 break;
             case 'p':
-                pid = strtoul(optarg, NULL, 10);
+                pid = parse_pid(optarg);
+                if (pid == 0) {
+                    fprintf(stderr, "Invalid PID: %s\n", optarg);
+                    usage(argv[0], stderr);
+                }
                 break;
             case 'b':
                 borrow = true;
-- 
2.43.0


From b07447860b8cc0a6503472ae89717f09738e700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:05 +0000
Subject: [PATCH 107/136] fix: accept all the documented values of --color

---
 src/utils/dlb_shm.c     | 6 +++++-
 src/utils/dlb_taskset.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/dlb_shm.c b/src/utils/dlb_shm.c
index f69d7f3..a3d3ca2 100644
--- a/src/utils/dlb_shm.c
+++ b/src/utils/dlb_shm.c
@@ -313,9 +313,13 @@ int main(int argc, char *argv[]) {
                 sprintf( userdef_shm_filename, "%s%s", optarg[0] == '/' ? "" : "/", optarg );
                 break;
             case COLOR_OPTION:
-                if (optarg && strcasecmp (optarg, "no") == 0) {
+                if (optarg && (strcasecmp(optarg, "no") == 0
+                            || strcasecmp(optarg, "never") == 0)) {
                     print_flags &= ~DLB_COLOR_AUTO;
                     print_flags &= ~DLB_COLOR_ALWAYS;
+                } else if (optarg && strcasecmp(optarg, "auto") == 0) {
+                    print_flags &= ~DLB_COLOR_ALWAYS;
+                    print_flags |= DLB_COLOR_AUTO;
                 } else {
                     print_flags |= DLB_COLOR_ALWAYS;
                 }
diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index c152d3a..42824d4 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -350,9 +350,13 @@ int main(int argc, char *argv[]) {
     while ((opt = getopt_long(argc, argv, "+l::g:s:c:r:g:p:bfhv", long_options, NULL)) != -1) {
         switch (opt) {
             case COLOR_OPTION:
-                if (optarg && strcasecmp (optarg, "no") == 0) {
+                if (optarg && (strcasecmp(optarg, "no") == 0
+                            || strcasecmp(optarg, "never") == 0)) {
                     print_flags &= ~DLB_COLOR_AUTO;
                     print_flags &= ~DLB_COLOR_ALWAYS;
+                } else if (optarg && strcasecmp(optarg, "auto") == 0) {
+                    print_flags &= ~DLB_COLOR_ALWAYS;
+                    print_flags |= DLB_COLOR_AUTO;
                 } else {
                     print_flags |= DLB_COLOR_ALWAYS;
                 }
-- 
2.43.0


From 09a63b357df6f376bdf6ee804ae5b3b31bdde0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:33 +0000
Subject: [PATCH 108/136] fix: list the shared memories whose key contains the
 name of another one

---
 src/utils/dlb_shm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/dlb_shm.c b/src/utils/dlb_shm.c
index a3d3ca2..fce0837 100644
--- a/src/utils/dlb_shm.c
+++ b/src/utils/dlb_shm.c
@@ -138,12 +138,12 @@ void list_shdata_item(const char* shm_suffix, int list_columns,
     // Look for any of the known DLB shared memory names
     const char* const dlb_shmems[] = { "cpuinfo_", "procinfo_", "barrier_" };
     enum { dlb_shmems_nelems = sizeof(dlb_shmems) / sizeof(dlb_shmems[0]) };
-    char *p = NULL;
+    const char *p = NULL;
     int i;
     for (i=0; i<dlb_shmems_nelems; ++i) {
-        p = strstr(shm_suffix, dlb_shmems[i]);
-        if (p) {
-            p += strlen(dlb_shmems[i]);
+        size_t len = strlen(dlb_shmems[i]);
+        if (strncmp(shm_suffix, dlb_shmems[i], len) == 0) {
+            p = shm_suffix + len;
             break;
         }
     }
-- 
2.43.0


From 1133e028acf7974739ff3c80be0d30d24da6474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:36 +0000
Subject: [PATCH 109/136] fix: do not overflow the buffer of DLB_ARGS in
 dlb_shm

---
 src/utils/dlb_shm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/dlb_shm.c b/src/utils/dlb_shm.c
index fce0837..57d990c 100644
--- a/src/utils/dlb_shm.c
+++ b/src/utils/dlb_shm.c
@@ -154,9 +154,9 @@ void list_shdata_item(const char* shm_suffix, int list_columns,
         fprintf( stdout, "Found DLB shmem with id: %s\n", p );
         /* Modify DLB_ARGS */
         const char *dlb_args_env = getenv("DLB_ARGS");
-        size_t dlb_args_env_len = dlb_args_env ? strlen(dlb_args_env) + 1 : 0;
+        size_t dlb_args_env_len = dlb_args_env ? strlen(dlb_args_env) : 0;
         const char * const new_dlb_args_base = "--verbose-format=node --shm-key=";
-        char *dlb_args = malloc(dlb_args_env_len + strlen(new_dlb_args_base) + strlen(p) + 1);
+        char *dlb_args = malloc(dlb_args_env_len + 1 + strlen(new_dlb_args_base) + strlen(p) + 1);
         sprintf(dlb_args, "%s %s%s", dlb_args_env ? dlb_args_env : "", new_dlb_args_base, p);
         setenv("DLB_ARGS", dlb_args, 1);
         free(dlb_args);
-- 
2.43.0


From d7120a7f45137f80f39323382bef40e31287b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:43 +0000
Subject: [PATCH 110/136] fix: return the borrowed CPUs when the application
 run by dlb_taskset ends

---
 src/utils/dlb_taskset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index 42824d4..c4fb156 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -212,7 +212,7 @@ static int execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
         int status = 0;
         waitpid(pid, &status, 0);
         DLB_DROM_Attach();
-        int error = DLB_DROM_PostFinalize(pid, borrow);
+        int error = DLB_DROM_PostFinalize(pid, borrow ? DLB_RETURN_STOLEN : 0);
         if (error != DLB_SUCCESS && error != DLB_ERR_NOPROC) {
             // DLB_ERR_NOPROC must be ignored here
             dlb_check(error, pid, __FUNCTION__);
-- 
2.43.0


From 483c192fab33541cdfd8569a0eab10b79b758fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:38 +0000
Subject: [PATCH 111/136] fix: ignore the files that disappear while dlb_shm
 inspects them

---
 src/utils/dlb_shm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/dlb_shm.c b/src/utils/dlb_shm.c
index 57d990c..4d5397b 100644
--- a/src/utils/dlb_shm.c
+++ b/src/utils/dlb_shm.c
@@ -186,8 +186,8 @@ void list_shdata(int list_columns, dlb_printshmem_flags_t print_flags) {
         char *filename = malloc((filename_size+1)*sizeof(char));
         sprintf(filename, "%s/%s", dir, entry->d_name);
         /* Only list if filename is same UID and matches DLB_* */
-        stat( filename, &statbuf );
-        if( getuid() == statbuf.st_uid &&
+        if( stat( filename, &statbuf ) == 0 &&
+                getuid() == statbuf.st_uid &&
                 fnmatch( "DLB_*", entry->d_name, 0) == 0 ) {
             // Ignore DLB_ prefix
             list_shdata_item(&entry->d_name[4], list_columns, print_flags);
@@ -239,8 +239,8 @@ void delete_shdata( void ) {
 
     chdir(dir);
     while ( (entry = readdir(dp)) != NULL ) {
-        lstat( entry->d_name, &statbuf );
-        if( S_ISREG( statbuf.st_mode ) && getuid() == statbuf.st_uid ) {
+        if( lstat( entry->d_name, &statbuf ) == 0 &&
+                S_ISREG( statbuf.st_mode ) && getuid() == statbuf.st_uid ) {
             if ( fnmatch( "DLB_*", entry->d_name, 0) == 0    ||
                     fnmatch( "sem.DLB_*", entry->d_name, 0) == 0 ) {
                 delete_shdata_item( entry->d_name );
-- 
2.43.0


From 200a7006c073c549603931f9e9ceff4ca0b926c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:15 +0000
Subject: [PATCH 112/136] fix: pass the whole arrays of datatypes in the
 Fortran 2008 interface

---
 scripts/pygen.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/scripts/pygen.py b/scripts/pygen.py
index 1e3639d..571ede7 100755
--- a/scripts/pygen.py
+++ b/scripts/pygen.py
@@ -131,6 +131,12 @@ def variable_is_assumed_size_array(variable, f08par):
     return False
 
 
+""" Return true if the line declares assumed size arrays of a Fortran derived type
+"""
+def line_has_derived_type_assumed_size_array(line):
+    return 'type(mpi_' in line.lower() and '(*)' in line
+
+
 """ Return true is the provided variable is a Fortran procedure type
 """
 def variable_is_procedure_type(variable, f08par):
@@ -256,6 +262,7 @@ def enrich_f08_par_decl(f08par):
     If CHARACTER(LEN=*) is found, it replaces with CHARACTER(KIND=C_CHAR), DIMENSION(*)
     and adds an integer at the end of the parameter declaration. The variables names are
     obtained from 'f_args'.
+    Assumed size arrays of a derived type are not converted.
     PROCEDURE types are changed to TYPE(c_funptr), VALUE.
 """
 def enrich_f_c_par_decl(f08par, f_args):
@@ -275,6 +282,14 @@ def enrich_f_c_par_decl(f08par, f_args):
     if 'procedure' in f08par.lower():
         decl_block += 'use, intrinsic :: ISO_C_BINDING, only : C_FUNPTR' + newline
 
+    # Import the derived types of assumed size arrays, passed without conversion
+    types = set()
+    for line in f08par.split(';'):
+        if line_has_derived_type_assumed_size_array(line):
+            types.update(re.findall(r'type\((mpi_\w+)\)', line, re.IGNORECASE))
+    if types:
+        decl_block += 'import :: {0}'.format(', '.join(sorted(types))) + newline
+
     decl_block += 'IMPLICIT NONE'
 
     # Python <2.7 re.sub does not accept a flags parameter, use a re object:
@@ -299,7 +314,8 @@ def enrich_f_c_par_decl(f08par, f_args):
             decl_block += decl
         else:
             decl = line.strip()
-            decl = match_derived_type.sub('INTEGER', decl)
+            if not line_has_derived_type_assumed_size_array(line):
+                decl = match_derived_type.sub('INTEGER', decl)
             decl = match_optional.sub('', decl)
             decl_block += decl
 
@@ -339,9 +355,9 @@ def enrich_f08_precall_stmts(f08par):
     to:
         str, comm%MPI_VAL, c_ierror, len(str)
 
-    If a parameter is an assumed size array of a derived type, the argument will
-    be transformed to `var_name(1:1)%MPI_VAL. Some older Fortran compilers complain
-    otherwise.
+    If a parameter is an assumed size array of a derived type, the array itself is
+    passed. A section of the component could be copied into a temporary that does
+    not contain all the elements.
     Parameters of PROCEDURE type will use the local variable cfunptr_{par_name}
 """
 def enrich_f08_to_c_arg_list(fpar, f08par, name):
@@ -356,7 +372,7 @@ def enrich_f08_to_c_arg_list(fpar, f08par, name):
             var_name = match_var_name.search(arg).group(1)
             if variable_is_derived_type(var_name, f08par):
                 if variable_is_assumed_size_array(var_name, f08par):
-                    args.append('{0}(1:1)%MPI_VAL'.format(var_name))
+                    args.append(var_name)
                 else:
                     args.append('{0}%MPI_VAL'.format(var_name))
             elif variable_is_procedure_type(var_name, f08par):
-- 
2.43.0


From 9a1238604c9716a6cb737c341f9ccaabd4cddcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:12 +0000
Subject: [PATCH 113/136] fix: bind the threads that already run on their CPU
 in the OpenMP thread manager

---
 src/LB_numThreads/omptm_omp5.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 3febdb4..5aef80c 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -389,11 +389,16 @@ void omptm_omp5__into_parallel_function(
         omptool_parallel_data_t *parallel_data, unsigned int index) {
     if (parallel_data->level == 1) {
         int cpuid = get_thread_binding(index);
-        int current_cpuid = sched_getcpu();
-        if (cpuid >=0 && cpuid != current_cpuid) {
-            cpu_set_t thread_mask;
-            CPU_ZERO(&thread_mask);
+        cpu_set_t current_mask;
+        CPU_ZERO(&current_mask);
+        pthread_getaffinity_np(pthread_self(), sizeof(cpu_set_t), &current_mask);
+        cpu_set_t thread_mask;
+        CPU_ZERO(&thread_mask);
+        if (cpuid >= 0) {
             CPU_SET(cpuid, &thread_mask);
+        }
+        /* A thread running on the CPU, but not bound to it, could still migrate */
+        if (cpuid >= 0 && !CPU_EQUAL(&thread_mask, &current_mask)) {
             pthread_setaffinity_np(pthread_self(), sizeof(cpu_set_t), &thread_mask);
             instrument_event(REBIND_EVENT, cpuid+1, EVENT_BEGIN);
             verbose(VB_OMPT, "Rebinding thread %d to CPU %d", index, cpuid);
-- 
2.43.0


From 2c571a00be273fe35f42967c68fbdd44fb11b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:12 +0000
Subject: [PATCH 114/136] fix: do not divide by zero in the OpenMP thread
 manager without CPUs to bind

---
 src/LB_numThreads/omptm_omp5.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 5aef80c..7d5a3f0 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -382,6 +382,7 @@ void omptm_omp5__parallel_end(omptool_parallel_data_t *parallel_data) {
 }
 
 static inline int get_thread_binding(int index) {
+    if (cpu_bindings.count == 0) return -1;
     return cpu_bindings.items[index % cpu_bindings.count];
 }
 
-- 
2.43.0


From a8e5983121430a7316b3c4032720479e99a00912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:50 +0000
Subject: [PATCH 115/136] fix: do not request zero OpenMP threads after a
 blocking call

---
 src/LB_numThreads/omptm_omp5.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 7d5a3f0..78fa1ff 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -363,8 +363,12 @@ void omptm_omp5__OutOfBlockingCall(void) {
     if (lewi) {
         DLB_Reclaim();
 
-        /* Return to the initial number of threads */
-        set_num_threads_fn(num_initial_omp_threads_level1);
+        /* Return to the initial number of threads, if there was one */
+        if (num_initial_omp_threads_level1 > 0) {
+            set_num_threads_fn(num_initial_omp_threads_level1);
+        } else {
+            set_num_threads_from_active_mask();
+        }
     }
 }
 
-- 
2.43.0


From ac0219a4dbc0423e4a41ea44770ad412b0d9d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:22 +0000
Subject: [PATCH 116/136] fix: recover all the CPUs of the process after a
 blocking call in the OpenMP thread manager

---
 src/LB_numThreads/omptm_omp5.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 78fa1ff..ffb76ad 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -361,7 +361,14 @@ void omptm_omp5__IntoBlockingCall(void) {
 
 void omptm_omp5__OutOfBlockingCall(void) {
     if (lewi) {
-        DLB_Reclaim();
+        int error = DLB_Reclaim();
+
+        /* LeWI does not notify the CPUs that this thread lent and has acquired again,
+         * but once reclaimed all the CPUs of the process are available */
+        if (error >= 0) {
+            CPU_OR(&active_mask, &active_mask, &process_mask);
+            compute_cpu_bindings();
+        }
 
         /* Return to the initial number of threads, if there was one */
         if (num_initial_omp_threads_level1 > 0) {
-- 
2.43.0


From 1aac133856e0e444ff68ac2a6f5026257b004503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:56 +0000
Subject: [PATCH 117/136] fix: keep the borrowed and lent CPUs when the process
 mask changes in the OpenMP thread manager

---
 src/LB_numThreads/omptm_omp5.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index ffb76ad..a6a23fd 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -135,8 +135,13 @@ static void cb_disable_cpu_set(const cpu_set_t *cpu_set, void *arg) {
 }
 
 static void cb_set_process_mask(const cpu_set_t *mask, void *arg) {
+    /* Update only the CPUs that change of owner, LeWI keeps the borrowed and lent ones */
+    cpu_set_t lost_cpus, new_cpus;
+    mu_substract(&lost_cpus, &process_mask, mask);
+    mu_substract(&new_cpus, mask, &process_mask);
+    mu_substract(&active_mask, &active_mask, &lost_cpus);
+    mu_or(&active_mask, &active_mask, &new_cpus);
     memcpy(&process_mask, mask, sizeof(cpu_set_t));
-    memcpy(&active_mask, mask, sizeof(cpu_set_t));
 
     /* Update number of cores in process mask */
     cpu_set_t core_set;
-- 
2.43.0


From f250dff69c14daf94e5a13b1358bda918c50de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:55 +0000
Subject: [PATCH 118/136] fix: do not bind threads to the inactive CPUs of a
 partially active core

---
 src/LB_numThreads/omptm_omp5.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index a6a23fd..9e83e1e 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -86,7 +86,8 @@ static void compute_cpu_bindings(void) {
                 cpuid_in_core >= 0;
                 cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
 
-            /* Add CPU id as potentially available */
+            /* Add CPU id as potentially available, only if it is active */
+            if (!CPU_ISSET(cpuid_in_core, &active_mask)) continue;
             array_cpuid_t_push(&cpu_bindings, cpuid_in_core);
 
             /* Stop adding if we reach the limit */
-- 
2.43.0


From 7f14728ad82ac5bb21d979e4d5c3fab9ced2f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:55 +0000
Subject: [PATCH 119/136] fix: do not restore the initial number of threads
 after the process mask changes

---
 src/LB_numThreads/omptm_omp5.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 9e83e1e..ae01f76 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -144,6 +144,9 @@ static void cb_set_process_mask(const cpu_set_t *mask, void *arg) {
     mu_or(&active_mask, &active_mask, &new_cpus);
     memcpy(&process_mask, mask, sizeof(cpu_set_t));
 
+    /* The initial number of threads corresponds to the previous mask */
+    num_initial_omp_threads_level1 = 0;
+
     /* Update number of cores in process mask */
     cpu_set_t core_set;
     mu_get_cores_subset_of_cpuset(&core_set, &process_mask);
-- 
2.43.0


From 9b85bf0849a2aba71507e0dac0c7a106d6df2e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:55 +0000
Subject: [PATCH 120/136] fix: do not count the CPU of a blocking call if it is
 no longer available in the OpenMP thread manager

---
 src/LB_numThreads/omptm_omp5.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index ae01f76..3f6dc8b 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -358,9 +358,8 @@ void omptm_omp5__IntoBlockingCall(void) {
         CPU_CLR(mycpu, &mask);
         DLB_LendCpuMask(&mask);
 
-        /* Set active_mask to only the current CPU */
-        CPU_ZERO(&active_mask);
-        CPU_SET(mycpu, &active_mask);
+        /* Set active_mask to only the current CPU, if it is still available */
+        mu_substract(&active_mask, &active_mask, &mask);
         set_num_threads_fn(1);
         compute_cpu_bindings();
 
-- 
2.43.0


From c3fded69e3e0afb2e294ff6ec38d62b2b201bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:59 +0000
Subject: [PATCH 121/136] fix: reclaim the CPUs received through DROM

---
 src/LB_core/DLB_kernel.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index d84262d..9fab1dd 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -726,6 +726,9 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
 /* Drom Responsive */
 
 static void update_ownership(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
+    /* LeWI needs the current process mask to know which CPUs are owned */
+    memcpy(&((subprocess_descriptor_t*)spd)->process_mask, mask, sizeof(cpu_set_t));
+
     if (spd->options.lewi) {
         /* If LeWI, resolve reclaimed CPUs */
         spd->lb_funcs.update_ownership(spd, mask);
-- 
2.43.0


From 2a35c4a2a2f238c562dad18decbb1672b8a6a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:06 +0000
Subject: [PATCH 122/136] fix: do not count the current CPU after DLB_Lend in
 the OpenMP thread manager

---
 src/LB_numThreads/omptm_omp5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 3f6dc8b..f35dc48 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -209,9 +209,9 @@ static void omptm_omp5__lend(void) {
 
 void omptm_omp5__lend_from_api(void) {
     if (lewi) {
+        /* DLB_Lend lends all the CPUs, even the current one */
         set_num_threads_fn(1);
         CPU_ZERO(&active_mask);
-        CPU_SET(sched_getcpu(), &active_mask);
         compute_cpu_bindings();
         verbose(VB_OMPT, "Release - Setting new mask to %s", mu_to_str(&active_mask));
         //DLB_SetMaxParallelism(1);
-- 
2.43.0


From abf7a53688112ecff75162fcd5c26d63dfcaedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:06 +0000
Subject: [PATCH 123/136] fix: recover a CPU when the process mask changes and
 all the CPUs in use are lost

---
 src/LB_numThreads/omptm_omp5.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index f35dc48..790bd57 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -102,12 +102,12 @@ static void compute_cpu_bindings(void) {
 
 static void set_num_threads_from_active_mask(void) {
     if (num_omp_threads_per_core == hwthreads_per_core) {
-        set_num_threads_fn(CPU_COUNT(&active_mask));
+        set_num_threads_fn(max_int(1, CPU_COUNT(&active_mask)));
     } else {
         cpu_set_t active_core_set;
         mu_get_cores_subset_of_cpuset(&active_core_set, &active_mask);
         int num_active_cores = CPU_COUNT(&active_core_set) / hwthreads_per_core;
-        set_num_threads_fn(num_active_cores * num_omp_threads_per_core);
+        set_num_threads_fn(max_int(1, num_active_cores * num_omp_threads_per_core));
     }
 }
 
@@ -154,6 +154,11 @@ static void cb_set_process_mask(const cpu_set_t *mask, void *arg) {
 
     set_num_threads_from_active_mask();
     compute_cpu_bindings();
+
+    /* If all the CPUs in use have been lost, recover one of the lent */
+    if (lewi && CPU_COUNT(&active_mask) == 0) {
+        DLB_ReclaimCpu(mu_get_first_cpu(&process_mask));
+    }
 }
 
 static void omptm_omp5__borrow(void) {
-- 
2.43.0


From 32d5a304f56fc751070772277985bd7a45769459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:54 +0000
Subject: [PATCH 124/136] fix: lend all but the current CPU after parallel
 regions and keep borrowing in the OpenMP thread manager

---
 src/LB_numThreads/omptm_omp5.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 790bd57..fdb4991 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -203,12 +203,24 @@ static void omptm_omp5__borrow(void) {
 
 static void omptm_omp5__lend(void) {
     if (lewi && omptool_opts & OMPTOOL_OPTS_LEND) {
+        /* Lend every CPU except the one of the current thread. Do not set the max
+         * parallelism, it would keep another CPU and prevent from borrowing later. */
+        int mycpu = sched_getcpu();
+        if (mycpu < 0 || !CPU_ISSET(mycpu, &active_mask)) {
+            mycpu = mu_get_first_cpu(&active_mask);
+        }
+        if (mycpu < 0) return;
+
+        cpu_set_t mask;
+        memcpy(&mask, &active_mask, sizeof(cpu_set_t));
+        CPU_CLR(mycpu, &mask);
+
         set_num_threads_fn(1);
         CPU_ZERO(&active_mask);
-        CPU_SET(sched_getcpu(), &active_mask);
+        CPU_SET(mycpu, &active_mask);
         compute_cpu_bindings();
         verbose(VB_OMPT, "Release - Setting new mask to %s", mu_to_str(&active_mask));
-        DLB_SetMaxParallelism(1);
+        DLB_LendCpuMask(&mask);
     }
 }
 
-- 
2.43.0


From 62c71d780bd5e46cc904ac4b28e4cf585b437703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:01 +0000
Subject: [PATCH 125/136] fix: initialize the mask of CPUs to lend in the free
 agents thread manager

---
 src/LB_numThreads/omptm_free_agents.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index 2b4ac16..76f8aff 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -245,6 +245,7 @@ static void omptm_free_agents__lend(void) {
     if (lewi && omptool_opts & OMPTOOL_OPTS_LEND) {
         /* Lend all IDLE worker CPUs */
         cpu_set_t mask;
+        CPU_ZERO(&mask);
         int cpuid;
         for (cpuid=0; cpuid<system_size; ++cpuid) {
             if (CPU_ISSET(cpuid, &worker_threads_mask) &&
-- 
2.43.0


From 53191d682a4d2dfc374a38aa115bf906f05412fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:01 +0000
Subject: [PATCH 126/136] fix: initialize the data of the CPUs without default
 thread in the free agents thread manager

---
 src/LB_numThreads/omptm_free_agents.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index 76f8aff..928dd71 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -411,6 +411,10 @@ void omptm_free_agents__init(pid_t process_id, const options_t *options) {
                 CPU_SET(cpuid, &worker_threads_mask);
                 cpu_data[cpuid].roles = ROLE_WORKER;
                 cpu_data[cpuid].state = CPU_STATE_IDLE;
+            } else {
+                /* The rest of CPUs can only be used by free agents */
+                cpu_data[cpuid].roles = ROLE_NONE;
+                cpu_data[cpuid].state = CPU_STATE_IDLE;
             }
         } else {
             cpu_data[cpuid].roles = ROLE_NONE;
-- 
2.43.0


From e5247933186e78b6d8e0401e32f68ab18d180b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:01 +0000
Subject: [PATCH 127/136] fix: do not use the free agents that do not have a
 CPU

---
 src/LB_numThreads/omptm_free_agents.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index 928dd71..a6f7ace 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -278,6 +278,9 @@ static void acquire_one_free_agent(void) {
     for (i=0; i<num_free_agents; ++i) {
         int cpuid = free_agent_cpu_list[i];
 
+        /* The rest of free agents have not started or do not have a CPU */
+        if (cpuid == -1) break;
+
         /* It is safe to just make a copy, we either skip the CPU or
          * call enable_cpu which will do an atomic exchange */
         cpu_state_t cpu_state = DLB_ATOMIC_LD_RLX(&cpu_data[cpuid].state);
@@ -537,6 +540,9 @@ void omptm_free_agents__thread_begin(ompt_thread_t thread_type) {
 
         int cpuid = get_free_agent_binding(thread_id);
 
+        /* Free agent threads start in disabled status */
+        __kmp_set_free_agent_thread_active_status(thread_id, false);
+
         if (cpuid >=0) {
             /* Set up free agent in free agent lists */
             free_agent_lists_register(thread_id, cpuid);
@@ -547,9 +553,6 @@ void omptm_free_agents__thread_begin(ompt_thread_t thread_type) {
 
             /* TODO: set up cpu state? */
 
-            /* Free agent threads start in disabled status */
-            __kmp_set_free_agent_thread_active_status(thread_id, false);
-
             /* Bind free agent thread to cpuid */
             cpu_set_t thread_mask;
             CPU_ZERO(&thread_mask);
@@ -672,6 +675,7 @@ void omptm_free_agents__task_create(void) {
 void omptm_free_agents__task_complete(void) {
     if (__free_agent_id >= 0) {
         int cpuid = get_free_agent_cpuid_by_id(__free_agent_id);
+        if (unlikely(cpuid == -1)) return;
 
         /* Disable free agent thread if this CPU is needed for a worker thread */
         if (DLB_ATOMIC_LD_RLX(&cpu_data[cpuid].state) & CPU_STATE_IN_PARALLEL
-- 
2.43.0


From 14030350684d7532060b9deeca35b36692ae1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:07 +0000
Subject: [PATCH 128/136] fix: do not enable a free agent nor lend the CPU when
 a worker reclaims it for a parallel region

---
 src/LB_numThreads/omptm_free_agents.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index a6f7ace..79d814f 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -185,7 +185,8 @@ static cpu_data_t *cpu_data = NULL;
 
 static void cb_enable_cpu(int cpuid, void *arg) {
     /* Skip callback if this CPU is required for a parallel region */
-    if (DLB_ATOMIC_LD_RLX(&cpu_data[cpuid].wanted_for_parallel)) {
+    if (DLB_ATOMIC_LD_RLX(&cpu_data[cpuid].wanted_for_parallel)
+            || DLB_ATOMIC_LD_RLX(&cpu_data[cpuid].state) & CPU_STATE_IN_PARALLEL) {
         return;
     }
 
@@ -654,10 +655,14 @@ void omptm_free_agents__into_parallel_function(
 
 
         /* Reclaim CPU if needed and set the appropriate state */
-        if (DLB_ATOMIC_LD_RLX(&cpu_data[cpuid].state) & CPU_STATE_LENT) {
+        if (cas_bit((atomic_int*)&cpu_data[cpuid].state,
+                    CPU_STATE_LENT, CPU_STATE_IN_PARALLEL)) {
             DLB_ReclaimCpu(cpuid);
+        } else {
+            set_bit((atomic_int*)&cpu_data[cpuid].state, CPU_STATE_IN_PARALLEL);
+            clear_bit((atomic_int*)&cpu_data[cpuid].state,
+                    CPU_STATE_IDLE | CPU_STATE_RECLAIMED);
         }
-        set_bit((atomic_int*)&cpu_data[cpuid].state, CPU_STATE_IN_PARALLEL);
         verbose(VB_OMPT, "CPU %d starting an implicit task", cpuid);
     }
 }
-- 
2.43.0


From 634962979fab9a0cecba2edfc0ae743c0b9d2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:07 +0000
Subject: [PATCH 129/136] fix: skip the CPUs wanted for a parallel region when
 a free agent is needed

---
 src/LB_numThreads/omptm_free_agents.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index 79d814f..e9aa5ef 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -286,9 +286,9 @@ static void acquire_one_free_agent(void) {
          * call enable_cpu which will do an atomic exchange */
         cpu_state_t cpu_state = DLB_ATOMIC_LD_RLX(&cpu_data[cpuid].state);
 
-        /* Skip CPU if it's already busy */
-        if (cpu_state & (CPU_STATE_IN_PARALLEL | CPU_STATE_FREE_AGENT_ENABLED)) {
-            // FIXME: check other flags? wanted_for_parallel?
+        /* Skip CPU if it's already busy, or about to be */
+        if (cpu_state & (CPU_STATE_IN_PARALLEL | CPU_STATE_FREE_AGENT_ENABLED)
+                || DLB_ATOMIC_LD_RLX(&cpu_data[cpuid].wanted_for_parallel)) {
             continue;
         }
 
-- 
2.43.0


From c3572337e377840f208503b2d76741d0c68b17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:41 +0000
Subject: [PATCH 130/136] fix: do not lend the CPUs with an active free agent
 nor keep wanted CPUs after a parallel region

---
 src/LB_numThreads/omptm_free_agents.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index e9aa5ef..29c1bbb 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -619,13 +619,18 @@ void omptm_free_agents__parallel_begin(omptool_parallel_data_t *parallel_data) {
 void omptm_free_agents__parallel_end(omptool_parallel_data_t *parallel_data) {
     if (parallel_data->level == 1) {
         DLB_ATOMIC_ST(&in_parallel, false);
-        /* All workers in parallel go to IDLE */
+        /* All CPUs in parallel, except the primary's, go to IDLE unless they have
+         * a free agent enabled */
         int cpuid;
         for (cpuid=0; cpuid<system_size; ++cpuid) {
-            if (cpu_data[cpuid].roles & ROLE_WORKER) {
-                cas_bit((atomic_int*)&cpu_data[cpuid].state,
-                        CPU_STATE_IN_PARALLEL, CPU_STATE_IDLE);
+            if (CPU_ISSET(cpuid, &process_mask)
+                    && !(cpu_data[cpuid].roles & ROLE_PRIMARY)) {
                 DLB_ATOMIC_ST_RLX(&cpu_data[cpuid].wanted_for_parallel, false);
+                if (clear_bit((atomic_int*)&cpu_data[cpuid].state, CPU_STATE_IN_PARALLEL)
+                        && !(DLB_ATOMIC_LD(&cpu_data[cpuid].state)
+                            & CPU_STATE_FREE_AGENT_ENABLED)) {
+                    set_bit((atomic_int*)&cpu_data[cpuid].state, CPU_STATE_IDLE);
+                }
             }
         }
 
-- 
2.43.0


From 502f2831022addbcaf220f0f6e3d3a3eb86f3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:26 +0000
Subject: [PATCH 131/136] fix: do not keep as idle the CPUs lent when a free
 agent has no more tasks

---
 src/LB_numThreads/omptm_free_agents.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index 29c1bbb..b3d768d 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -708,6 +708,8 @@ void omptm_free_agents__task_complete(void) {
             /* or, lend anyway if LEND policy */
             if (!CPU_ISSET(cpuid, &process_mask)
                     || omptool_opts & OMPTOOL_OPTS_LEND) {
+                cas_bit((atomic_int*)&cpu_data[cpuid].state,
+                        CPU_STATE_IDLE, CPU_STATE_LENT);
                 DLB_LendCpu(cpuid);
             }
         }
-- 
2.43.0


From 647a14387b7b50e60d0d3c22f17a18135ba0ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:34 +0000
Subject: [PATCH 132/136] fix: do not consider lent the CPUs where a free agent
 is enabled

---
 src/LB_numThreads/omptm_free_agents.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_numThreads/omptm_free_agents.c b/src/LB_numThreads/omptm_free_agents.c
index b3d768d..cda645a 100644
--- a/src/LB_numThreads/omptm_free_agents.c
+++ b/src/LB_numThreads/omptm_free_agents.c
@@ -203,7 +203,7 @@ static void cb_enable_cpu(int cpuid, void *arg) {
     } else {
         /* Enable associated free agent thread if not already */
         if(test_set_clear_bit((atomic_int*)&cpu_data[cpuid].state,
-                    CPU_STATE_FREE_AGENT_ENABLED, CPU_STATE_IDLE)) {
+                    CPU_STATE_FREE_AGENT_ENABLED, CPU_STATE_IDLE | CPU_STATE_LENT)) {
             DLB_ATOMIC_ADD(&num_enabled_free_agents, 1);
             verbose(VB_OMPT, "Enabling free agent %d", free_agent_id);
             __kmp_set_free_agent_thread_active_status(free_agent_id, true);
-- 
2.43.0


From a0a16fa341db00afe1eb6f86c029c1ca1e24f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:54 +0000
Subject: [PATCH 133/136] fix: do not count an MPI call when collecting the POP
 metrics

---
 src/LB_core/DLB_talp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 4c6e038..c447186 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1534,7 +1534,7 @@ static void talp_reduce_pop_metrics_app_reduction(app_reduction_t *app_reduction
 
     /* Define MPI operation */
     MPI_Op app_reduction_op;
-    MPI_Op_create(talp_mpi_reduction_fn, true, &app_reduction_op);
+    PMPI_Op_create(talp_mpi_reduction_fn, true, &app_reduction_op);
 
     /* MPI reduction */
     if (!all_to_all) {
-- 
2.43.0


From 71dfe584c2fb4bd9157ea4f5bb98ddb1f84221fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:54 +0000
Subject: [PATCH 134/136] fix: do not truncate the maximum useful time per node
 in the MPI reduction

---
 src/LB_core/DLB_talp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index c447186..b50e4fe 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1449,8 +1449,9 @@ static void talp_mpi_reduction_fn(void *invec, void *inoutvec, int *len,
         inout[i].omp_load_imbalance_time += in[i].omp_load_imbalance_time;
         inout[i].omp_scheduling_time     += in[i].omp_scheduling_time;
         inout[i].omp_serialization_time  += in[i].omp_serialization_time;
-        inout[i].max_useful_normd_node  =
-            max_int64(inout[i].max_useful_normd_node, in[i].max_useful_normd_node);
+        if (in[i].max_useful_normd_node > inout[i].max_useful_normd_node) {
+            inout[i].max_useful_normd_node = in[i].max_useful_normd_node;
+        }
         if (in[i].max_useful_normd_proc > inout[i].max_useful_normd_proc) {
             inout[i].max_useful_normd_proc = in[i].max_useful_normd_proc;
             inout[i].mpi_normd_of_max_useful = in[i].mpi_normd_of_max_useful;
-- 
2.43.0


From e0af46ddc4d873f9402f016cdfbf08dd336e2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:54 +0000
Subject: [PATCH 135/136] fix: obtain the node id from the first process of the
 node

---
 src/LB_MPI/process_MPI.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LB_MPI/process_MPI.c b/src/LB_MPI/process_MPI.c
index 461c59a..686f1f1 100644
--- a/src/LB_MPI/process_MPI.c
+++ b/src/LB_MPI/process_MPI.c
@@ -97,6 +97,13 @@ static void get_mpi_info(void) {
     PMPI_Comm_split(mpi_comm_world, _process_id, 0 /* key */, &mpi_comm_internode);
     PMPI_Comm_rank(mpi_comm_internode, &_node_id);
     PMPI_Comm_size(mpi_comm_internode, &_num_nodes);
+
+    /* If nodes have a different number of processes, only the communicator of the
+     * first process of each node contains all the nodes */
+    int node_info[2] = {_node_id, _num_nodes};
+    PMPI_Bcast(node_info, 2, MPI_INT, 0, mpi_comm_node);
+    _node_id = node_info[0];
+    _num_nodes = node_info[1];
 #else
     char hostname[HOST_NAME_MAX] = {'\0'};
     char (*recvData)[HOST_NAME_MAX] = malloc(_mpi_size * sizeof(char[HOST_NAME_MAX]));
-- 
2.43.0


From 6f7083af87db4af3e8842bb1f4b73650f429f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:54 +0000
Subject: [PATCH 136/136] fix: gather the node summary of nodes with different
 number of processes

---
 src/LB_core/DLB_talp.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index b50e4fe..e8a8aeb 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1130,6 +1130,17 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
     if (_process_id == 0) {
         verbose(VB_TALP, "Node summary: gathering data");
 
+        /* Nodes may have a different number of processes, but all the records
+         * must be sent with the same size */
+        int nelems = node_summary->nelems;
+        int max_nelems;
+        PMPI_Allreduce(&nelems, &max_nelems, 1, MPI_INT, MPI_MAX, getInterNodeComm());
+        node_summary_size = sizeof(node_record_t)
+            + sizeof(process_in_node_record_t) * max_nelems;
+        node_summary = realloc(node_summary, node_summary_size);
+        memset(&node_summary->processes[nelems], 0,
+                sizeof(process_in_node_record_t) * (max_nelems - nelems));
+
         /* MPI type: pid_t */
         MPI_Datatype mpi_pid_type;
         PMPI_Type_match_size(MPI_TYPECLASS_INTEGER, sizeof(pid_t), &mpi_pid_type);
@@ -1155,7 +1166,7 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
         MPI_Datatype mpi_node_record_type;;
         {
             int count = 7;
-            int blocklengths[] = {1, 1, 1, 1, 1, 1, node_summary->nelems};
+            int blocklengths[] = {1, 1, 1, 1, 1, 1, max_nelems};
             MPI_Aint displacements[] = {
                 offsetof(node_record_t, node_id),
                 offsetof(node_record_t, nelems),
-- 
2.43.0

