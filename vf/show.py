import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for h in d['coverage']['harnesses']: print(h['harness'],h['flavour'],h['case_splits'],h['obligations'],h['by_back_end'],h['exec_s'],h['solve_s'])
