SEEDS = []
PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <unistd.h>
#include "apis/dlb.h"
#include "apis/dlb_sp.h"
#include "apis/dlb_errors.h"
#include "support/mask_utils.h"
static char opts[512];
static const char *args(const char *more) { snprintf(opts, sizeof opts, "--quiet=yes --shm-key=%s %s", getenv("SEED_KEY"), more); return opts; }
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s (line %d)\n", #x, __LINE__); fflush(stdout); _exit(1); } } while (0)
static void range(cpu_set_t *s, int a, int b) { CPU_ZERO(s); for (int i = a; i <= b; ++i) CPU_SET(i, s); }
'''
SEEDS.append(dict(id='C24-delete-at-wrap', property='C24',
 needs='a queue whose next free slot has wrapped to index 0 and the removal of an element in the middle',
 breaks='removing from the middle when the queue ends exactly at the end of its storage leaves a corrupt queue (size that is not a power of two)',
 edits=[('src/support/queue_template.h', '''    queue->next = write_index;
}

/* Remove all''', '''    /* the queue is now one element shorter */
    queue->next = (queue->next - 1) % QUEUE_SIZE;
}

/* Remove all''')],
 demo=r'''
#include <stdio.h>
#include <stdbool.h>
#include <stddef.h>
typedef struct { int key; int val; } item_t;
#define QUEUE_T item_t
#define QUEUE_KEY_T int
#define QUEUE_SIZE 10
#include "support/queue_template.h"
int main(void) {
    static queue_item_t q; queue_item_t_init(&q);
    for (int i = 0; i < 9; ++i) { queue_item_t_enqueue(&q, (item_t){i + 1, i}); if (i < 5) { item_t x; queue_item_t_dequeue(&q, &x); } }
    queue_item_t_enqueue(&q, (item_t){10, 9});
    int n = queue_item_t_size(&q);
    item_t *it = queue_item_t_search(&q, 8);
    queue_item_t_delete(&q, it);
    int count = 0; for (item_t *i = queue_item_t_front(&q); i && count < 100; i = queue_item_t_next(&q, i)) ++count;
    printf("size %d -> %zu, %d elements\n", n, queue_item_t_size(&q), count);
    return !(queue_item_t_size(&q) == n - 1 && count == n - 1 && queue_item_t_back(&q)->key == 10);
}
'''))
SEEDS.append(dict(id='C22-repeated-option', property='C22',
 needs='the same option given twice in one string, the second time in another form',
 breaks='the later occurrence of a repeated option does not prevail',
 edits=[('src/support/options.c', '''                /* Option value is 'no' */
                strcpy(arg_value, "no");
''', '''                /* Option value is 'no' */
                if (*arg_value == '\\0') strcpy(arg_value, "no");
''')],
 demo=PRE + r'''
#include "support/options.h"
int main(void) {
    options_t o; options_init(&o, "--lewi --drom=yes --no-lewi");
    CHECK(o.drom == true);
    CHECK(o.lewi == false);
    options_finalize(&o);
    options_init(&o, "--no-lewi --lewi");
    CHECK(o.lewi == true);
    return 0;
}
'''))
SEEDS.append(dict(id='C04-global-request-core', property='C04',
 needs='SMT, asynchronous mode, a pending request for any CPU, and a process that lends half a core after having lent and reclaimed',
 breaks='a core ends up shared by two processes',
 edits=[('src/LB_comm/shmem_cpuinfo.c', '''                if (CPU_ISSET(cpuinfo->id, &it->allowed)
                        && core_is_eligible(it->pid, cpuinfo->id)) {''', '''                if (CPU_ISSET(cpuinfo->id, &it->allowed)
                        && (it->howmany == 1 || core_is_eligible(it->pid, cpuinfo->id))) {''')],
 demo=PRE + r'''
static volatile int got[8];
static void enable(int cpu, void *arg) { got[cpu] = 1; }
static void disable(int cpu, void *arg) { got[cpu] = 0; }
int main(void) {
    mu_testing_set_sys(8, 4, 1);
    cpu_set_t a, b; range(&a, 0, 3); range(&b, 4, 7);
    dlb_handler_t A = DLB_Init_sp(0, &a, args("--lewi --lewi-mpi=no --mode=async"));
    dlb_handler_t B = DLB_Init_sp(0, &b, opts);
    CHECK(A && B);
    for (int i = 0; i < 2; ++i) { dlb_handler_t h = i ? B : A;
        DLB_CallbackSet_sp(h, dlb_callback_enable_cpu, (dlb_callback_t)enable, NULL);
        DLB_CallbackSet_sp(h, dlb_callback_disable_cpu, (dlb_callback_t)disable, NULL); }
    CHECK(DLB_AcquireCpus_sp(B, 1) == DLB_NOTED);
    CHECK(DLB_LendCpu_sp(A, 0) == DLB_SUCCESS);
    usleep(200000);
    printf("CPU 0 given to B while A uses CPU 1: %d\n", got[0]);
    CHECK(got[0] == 0);
    CHECK(DLB_LendCpu_sp(A, 1) == DLB_SUCCESS);
    usleep(200000);
    CHECK(got[0] + got[1] >= 1);
    DLB_Finalize_sp(B); DLB_Finalize_sp(A);
    return 0;
}
'''))
SEEDS.append(dict(id='C02-request-after-disable', property='C02',
 needs='asynchronous mode; a process with a pending request for any CPU that disables LeWI before a CPU is lent',
 breaks='a disabled process is given CPUs',
 edits=[('src/LB_comm/shmem_cpuinfo.c', '''/* Called when DLB_disable.
 * This function resets the initial status of pid: acquire owned, lend guested */
int shmem_cpuinfo__reset(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
    int error = DLB_SUCCESS;
    shmem_lock(shm_handler);
    {
        // Remove any request before acquiring and lending
        if (shdata->flags.queues_enabled) {
            queue_lewi_mask_request_t_remove(&shdata->lewi_mask_requests, pid);
            for''', '''/* Called when DLB_disable.
 * This function resets the initial status of pid: acquire owned, lend guested */
int shmem_cpuinfo__reset(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
    int error = DLB_SUCCESS;
    shmem_lock(shm_handler);
    {
        // Remove any request before acquiring and lending
        if (shdata->flags.queues_enabled) {
            for''')],
 demo=PRE + r'''
static volatile int got;
static void enable(int cpu, void *arg) { ++got; }
static void disable(int cpu, void *arg) { }
int main(void) {
    mu_testing_set_sys_size(8);
    cpu_set_t a, b; range(&a, 0, 3); range(&b, 4, 7);
    dlb_handler_t A = DLB_Init_sp(0, &a, args("--lewi --lewi-mpi=no --mode=async"));
    dlb_handler_t B = DLB_Init_sp(0, &b, opts);
    CHECK(A && B);
    for (int i = 0; i < 2; ++i) { dlb_handler_t h = i ? B : A;
        DLB_CallbackSet_sp(h, dlb_callback_enable_cpu, (dlb_callback_t)enable, NULL);
        DLB_CallbackSet_sp(h, dlb_callback_disable_cpu, (dlb_callback_t)disable, NULL); }
    CHECK(DLB_AcquireCpus_sp(B, 2) == DLB_NOTED);
    DLB_Disable_sp(B);
    usleep(50000); got = 0;
    CHECK(DLB_LendCpuMask_sp(A, &a) == DLB_SUCCESS);
    usleep(200000);
    printf("CPUs given to a disabled process: %d\n", got);
    CHECK(got == 0);
    DLB_Finalize_sp(B); DLB_Finalize_sp(A);
    return 0;
}
'''))
SEEDS.append(dict(id='C05-borrow-all', property='C05',
 needs='a process that already holds some CPUs below its limit and borrows without a count',
 breaks='Borrow exceeds the maximum parallelism',
 edits=[('src/LB_comm/shmem_cpuinfo.c', '''    /* Compute the max number of CPUs to borrow */
    int ncpus = requested_ncpus ? *requested_ncpus : node_size;
    if (max_parallelism > 0) {''', '''    /* Compute the max number of CPUs to borrow */
    int ncpus = requested_ncpus ? *requested_ncpus : node_size;
    if (max_parallelism > 0 && ncpus < node_size) {''')],
 demo=PRE + r'''
static int have;
static void enable(int cpu, void *arg) { ++have; }
static void disable(int cpu, void *arg) { --have; }
int main(void) {
    mu_testing_set_sys_size(8);
    cpu_set_t a, b; range(&a, 0, 5); range(&b, 6, 7);
    dlb_handler_t A = DLB_Init_sp(0, &a, args("--lewi --lewi-mpi=no --mode=polling"));
    dlb_handler_t B = DLB_Init_sp(0, &b, opts);
    CHECK(A && B);
    DLB_CallbackSet_sp(B, dlb_callback_enable_cpu, (dlb_callback_t)enable, NULL);
    DLB_CallbackSet_sp(B, dlb_callback_disable_cpu, (dlb_callback_t)disable, NULL);
    have = 2;
    CHECK(DLB_SetMaxParallelism_sp(B, 4) >= 0);
    CHECK(DLB_LendCpuMask_sp(A, &a) == DLB_SUCCESS);
    DLB_Borrow_sp(B);
    printf("B has %d CPUs, limit 4\n", have);
    CHECK(have <= 4);
    DLB_Finalize_sp(B); DLB_Finalize_sp(A);
    return 0;
}
'''))
SEEDS.append(dict(id='C20-register-other-pid', property='C20',
 needs='two processes that register a region of the same name after one of them has registered another',
 breaks='a process publishes in the region of another process',
 edits=[('src/LB_comm/shmem_talp.c', '''            if (talp_region->pid == pid
                    && strncmp(talp_region->name, name, DLB_MONITOR_NAME_MAX-1) == 0) {
                /* Region was already registered */''', '''            if ((talp_region->pid == pid || (region_id > 2 && talp_region->pid != NOBODY))
                    && strncmp(talp_region->name, name, DLB_MONITOR_NAME_MAX-1) == 0) {
                /* Region was already registered */''')],
 demo=PRE + r'''
#include "LB_comm/shmem_talp.h"
int main(void) {
    mu_testing_set_sys_size(4);
    CHECK(shmem_talp__init(getenv("SEED_KEY"), 1) == DLB_SUCCESS || 1);
    int id[8], n = 0;
    const char *names[] = {"a", "b", "c", "d"};
    for (int i = 0; i < 4; ++i) CHECK(shmem_talp__register(111, 1.0, names[i], &id[n++]) == DLB_SUCCESS);
    int e = shmem_talp__register(222, 1.0, "d", &id[n++]);
    printf("second process: error %d, id %d\n", e, id[4]);
    int bad = id[4] == id[3] || (e != DLB_SUCCESS && e != DLB_ERR_NOMEM);
    shmem_talp__finalize(111);
    return bad;
}
'''))
SEEDS.append(dict(id='C18-v2-serialization', property='C18',
 needs='the second hybrid model, with OpenMP load imbalance and serialization',
 breaks='the OpenMP efficiency is not the product of its factors in the second model',
 edits=[('src/support/perf_metrics.h', '''            .mpi_communication_efficiency =
            max_useful_normd_proc / (max_useful_normd_proc + mpi_normd_of_max_useful),'''.replace('            .mpi','        .mpi'), '''        .mpi_communication_efficiency =
            max_useful_normd_proc / (max_useful_normd_app_or_proc(base_metrics) + mpi_normd_of_max_useful),'''),
 ('src/support/perf_metrics.h', '''/* Compute POP metrics for the hybrid MPI + OpenMP model (Ver. 2: PE != MPE * OPE) */''', '''static inline double max_useful_normd_app_or_proc(const pop_base_metrics_t *base_metrics) {
    return base_metrics->num_nodes > 1
        ? base_metrics->max_useful_normd_proc : base_metrics->useful_normd_app;
}

/* Compute POP metrics for the hybrid MPI + OpenMP model (Ver. 2: PE != MPE * OPE) */''')],
 demo=PRE + r'''
#include "LB_core/DLB_talp.h"
#include "LB_core/spd.h"
#include "support/perf_metrics.h"
int main(void) {
    pop_base_metrics_t b = {.num_cpus = 4, .num_mpi_ranks = 0, .num_nodes = 1, .useful_time = 400, .mpi_time = 200, .omp_load_imbalance_time = 100,
        .useful_normd_app = 100, .mpi_normd_app = 50, .max_useful_normd_proc = 150, .max_useful_normd_node = 120, .mpi_normd_of_max_useful = 50};
    perf_metrics_hybrid_t m;
    perf_metrics__compute_hybrid_model_v2(&m, &b);
    printf("%f %f %f\n", m.mpi_parallel_efficiency, m.mpi_communication_efficiency, m.mpi_load_balance);
    double d = m.mpi_parallel_efficiency - m.mpi_communication_efficiency * m.mpi_load_balance;
    CHECK(d < 1e-4 && d > -1e-4);
    return 0;
}
'''))
