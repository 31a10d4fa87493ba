// Program launched by the tools: records how it has been called, and may use DLB.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
extern char **environ;
}
static std::string hex(const cpu_set_t *m) { std::string r; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, m)) r += std::to_string(i) + ","; return r; }
int main(int argc, char **argv) {
    const char *out = getenv("TC_OUT"), *what = getenv("TC_DO"); if (!out || !what) return 99;
    std::string rec; auto add = [&](const char *k, const std::string &v) { rec += k; rec += v; rec.push_back('\0'); };
    for (int i = 0; i < argc; ++i) add("A", argv[i]); for (char **e = environ; *e; ++e) add("E", *e);
    cpu_set_t m; CPU_ZERO(&m); sched_getaffinity(0, sizeof m, &m); add("M", hex(&m)); char cwd[4096]; add("D", getcwd(cwd, sizeof cwd) ? cwd : "?"); add("P", std::to_string(getpid())); add("Q", std::to_string(getppid()));
    bool dlb = strstr(what, "dlb"); int e = 0; if (dlb) { e = DLB_Init(0, nullptr, nullptr); add("I", std::to_string(e)); CPU_ZERO(&m); int g = DLB_DROM_GetProcessMask(0, &m, (dlb_drom_flags_t)0); add("G", std::to_string(g)); add("K", hex(&m)); }
    rec.push_back(1); int fd = open(out, O_WRONLY | O_CREAT | O_APPEND, 0666); if (fd < 0 || write(fd, rec.data(), rec.size()) != (ssize_t)rec.size()) return 98; close(fd);
    std::string go = std::string(out) + ".go"; if (strstr(what, "hold")) for (int k = 0; k < 4000 && access(go.c_str(), F_OK); ++k) usleep(2500);
    if (dlb && e == 0) DLB_Finalize();
    if (const char *s = strstr(what, "sig:")) { signal(atoi(s + 4), SIG_DFL); raise(atoi(s + 4)); }
    if (const char *s = strstr(what, "exit:")) return atoi(s + 5);
    return 0;
}
