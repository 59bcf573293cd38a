# quick driver run: t.sh driver cfg only seconds
cd /verif && x=$(python3 build.py $1:$2 | awk '{print $NF}'); [ -n "$x" ] || exit 1; true && mkdir -p /tmp/t && rm -f /tmp/t/o && ASAN_OPTIONS=detect_leaks=0:hard_rss_limit_mb=3000 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1 $x ${3:+--only $3} --seconds ${4:-5} --seed ${5:-1} --err /tmp/t/e --cur /tmp/t/cur --out /tmp/t/o --cpu 60; echo rc $?
python3 - <<'P'
import json
try:
  d=json.load(open("/tmp/t/o"))
  print(d["cases"],d["checks"],d["count"],{k:round(v,2) for k,v in d["scencpu"].items()}, d["scenarios"])
  for v in d["violations"]: print(v["case"],v["key"],v["msg"][:500],"\n   ",v["desc"][:900])
except Exception as e:
  print(e, open("/tmp/t/cur").read().strip(chr(0))); print(open("/tmp/t/e",errors="replace").read()[-3500:])
P
