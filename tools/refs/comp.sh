python3 /tmp/refs/$1.py && cd /repo && gofmt -l . ; go vet . ./f ./errors ./translator ./locale ./plurals 2>&1 | head -20; bash /opt/vp/build.sh 2>&1 | tail; ls cmd/xtemplate; bash /opt/vp/test.sh /tmp/refs/$1.json > /tmp/refs/$1.test 2>&1
python3 - $1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/refs/{sys.argv[1]}.json'))
ok={x for x in (r.get('passed') or r.get('pass'))}
print(list(r), 'missing', sorted(set(b['stable'])-ok)[:10])
P
