#include "apis/dlb_talp.h"
#include "support/perf_metrics.h"
#include "support/types.h"
#include <string.h>
static subprocess_descriptor_t pm_spd;
void vf_pop(int v1, const char *name, const pop_base_metrics_t *b, dlb_pop_metrics_t *out) {
    thread_spd = &pm_spd;
    pm_spd.options.talp_model = v1 ? TALP_MODEL_HYBRID_V1 : TALP_MODEL_HYBRID_V2;
    talp_base_metrics_to_pop_metrics(name, b, out);
}
void vf_infer(float *out, int p, int64_t u, int64_t m, int64_t mx) {
    perf_metrics_mpi_t r; memset(&r, 0x55, sizeof r);
    perf_metrics__infer_mpi_model(&r, p, u, m, mx);
    out[0] = r.parallel_efficiency; out[1] = r.communication_efficiency; out[2] = r.load_balance;
}
