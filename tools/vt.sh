cd /repo && gofmt -l internal/policy internal/store internal/relation_graph pkg/domain pkg/policy_definition zanzi.go | grep -v pb.go
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/o.json'));print(len(o['passed']),[f.split('/')[-1] for f in o['failed']],b-set(o['passed']))
P
