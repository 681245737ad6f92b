import json,sys
for i in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{i}.json'))
    print(i,'wall',e['wall_s'],'sum',e['coverage']['symbolic_execution_and_solver_seconds'])
    for h in e['coverage']['harnesses']: print('  ',h['name'],h['unwind'],h['verdict'],h['queries'],h['witnesses_satisfied'],h['seconds'])
