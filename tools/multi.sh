# multi.sh driver cfg only seconds: six seeds in parallel
cd /verif; x=$(python3 build.py $1:$2 | awk '{print $NF}'); mkdir -p /tmp/t
rm -f /tmp/t/o?;for i in 1 2 3 4 5 6 7; do (ASAN_OPTIONS=detect_leaks=0:hard_rss_limit_mb=3000 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1 $x ${3:+--only $3} --seconds ${4:-30} --seed $((i+${5:-100})) --err /tmp/t/e$i --cur /tmp/t/cur$i --out /tmp/t/o$i --cpu 100; echo rc $i $?) & done; wait
for i in 1 2 3 4 5 6 7; do python3 - $i <<'P'
import json,sys
i=sys.argv[1]
try:
  d=json.load(open("/tmp/t/o"+i)); print(d["slowest"],d["cases"],{k:round(v,1) for k,v in d["scencpu"].items()},{k:v for k,v in d['count'].items() if k.startswith('skip')})
  for v in d["violations"]: print(v["case"],v["key"],v["msg"][:500],"\n   ",v["desc"][:900])
except Exception as e: print(e,open("/tmp/t/cur"+i).read().strip(chr(0))); print(open("/tmp/t/e"+i,errors="replace").read()[-2500:])
P
rm -f /tmp/t/o$i
done
