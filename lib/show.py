import json,sys
for a in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%a))
    for o in sorted(e['coverage']['obligations'],key=lambda o:-o['wall_s'])[:14]:
        print("%-28s %7.1fs paths=%-7d q=%-6d inc=%d complete=%s %s %s"%(o['obligation'],o['wall_s'],o.get('paths',0),o.get('queries',0),o.get('inconclusive',0),o.get('complete'),o.get('reasons'),o.get('error') or ''))
