#!/bin/bash
# try.sh PROPERTY [args]: build and run one check's first variant directly
cd /verif && python3 - "$@" <<'P'
import sys,os; sys.path.insert(0,'/verif/checks')
import build
from registry import CHECKS
t=build.locked_tree()
pid=sys.argv[1]; vi=0; rest=sys.argv[2:]
if rest and rest[0].startswith('v='): vi=int(rest[0][2:]); rest=rest[1:]
v=CHECKS[pid]['variants'][vi]
cmd=v['prepare'](t); t._lock.close()
env=dict(os.environ); env.pop('DLB_ARGS',None)
env["ASAN_OPTIONS"]="detect_leaks=%d:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_odr_violation=0:%s"%(1 if v.get('leaks') else 0, v.get('asan',''))
env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:" + v.get("tsan", "")
env.update(v.get('env',{}))
os.execvpe(cmd[0], cmd+["--out","/tmp/out.json","--replay-dir","/tmp/replays","--variant",v['name']]+rest, env)
P
