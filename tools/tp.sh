# python driver run: tp.sh driver [only] [seconds] [seed]
cd /verif; M=$(python3 build.py cython) || exit 1
mkdir -p /tmp/t; rm -f /tmp/t/po
[ $1 = d_cython ] && export LD_PRELOAD="$(gcc -print-file-name=libasan.so) $(gcc -print-file-name=libubsan.so)" PYTHONMALLOC=malloc
ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1 PYTHONHASHSEED=0 GINV_MOD=$M GINV_PY=/repo/pyginv /usr/bin/python3 harness/$1.py ${2:+--only $2} --seconds ${3:-5} --seed ${4:-1} --err /tmp/t/pe --cur /tmp/t/pcur --out /tmp/t/po; echo rc $?
unset LD_PRELOAD
python3 - <<'P'
import json
try:
  d=json.load(open("/tmp/t/po"))
  print(d["cases"],d["checks"],d["count"],d["scenarios"],d["slowest"])
  for v in d["violations"]: print(v["case"],v["key"],v["msg"][:900],"\n   ",v["desc"][:600])
except Exception as e:
  print(e, open("/tmp/t/pcur").read().strip(chr(0))); print(open("/tmp/t/pe",errors="replace").read()[-3500:])
P
