"""Summarise a symex output directory (development aid)."""
import json,glob,sys,subprocess
d=sys.argv[1]
acc={}
for f in sorted(glob.glob(d+'/*.json')):
    j=json.load(open(f)); a=acc.setdefault(j['job'],{'procs':0,'viol':{}, 'errors':{},'covers':{},'checks':{},'samples':[]})
    a['procs']+=1
    for k in ('paths','killed','forks','steps','concretized','incomplete','unknown','queries','sat','unsat','cached','modelhit','solver_s'): a[k]=a.get(k,0)+j[k]
    for k in ('maxsteps','maxpc','max_query_s','wall_s','exprs'): a[k]=max(a.get(k,0),j[k])
    for k in ('errors','covers','checks'):
        for x,n in j[k].items(): a[k][x]=a[k].get(x,0)+n
    for v in j['violations']: a['viol'].setdefault((v['kind'],v['what'],v['at']),v['input'])
    a['samples']+=j['samples'][:1]
for n,a in acc.items():
    v=a.pop('viol'); s=a.pop('samples')
    print('%-28s paths %d killed %d inc %d unk %d q %d solver %.1f maxq %.2f wall %.1f steps %dM maxsteps %d checks %d %s %s'%(n,a['paths'],a['killed'],a['incomplete'],a['unknown'],a['queries'],a['solver_s'],a['max_query_s'],a['wall_s'],a['steps']//1000000,a['maxsteps'],sum(a['checks'].values()),a['covers'],a['errors'] or ''))
    for k,i in v.items(): print('  VIOL',subprocess.run(['c++filt'],input='|'.join(k),capture_output=True,text=True).stdout.strip()[:300],i)
