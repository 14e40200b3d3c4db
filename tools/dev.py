import sys,time; sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif')
import build,explore,os
from config import PROPS
pid=sys.argv[1]; uname=sys.argv[2] if len(sys.argv)>2 else None
tier=os.environ.get('VTIER','quick'); os.environ['VTIER']=tier
for u in PROPS[pid]['units']:
    if uname and u['name']!=uname: continue
    t=time.time()
    b=build.build('/verif/harness/'+u['harness'],'/tmp/w_'+u['name'],u.get('driver',False),u.get('defines',()))
    print('build',round(time.time()-t,1),len(b['funcs']),b['nops'])
    o=dict(u.get('cfg',{})); o.update(u.get(tier+'_cfg',{}))
    for env in u.get('envs',[{}]):
        t=time.time()
        c=explore.Cfg(mode=u.get('mode','real'),**o); c.env=env
        r=explore.explore(b,c,time.time()+float(os.environ.get('BUD',u.get('budget',{}).get(tier,200))),verbose=True,stop_first=False)
        print(env,'wall',round(time.time()-t,1),'paths',r.paths,'q',r.queries,'solver',round(r.solver_s,1),'unk',r.unknown,'wit',r.wit,'nat',r.native_ok,len(r.native_bad),'und',len(r.undecided),'unexpl',r.unexplored,'cuts',r.cuts,'poison',r.poison,'depth',r.maxdepth)
        for k,v in sorted(r.labels.items()): print('   ',k,v)
        print('   notes',r.notes)
        seen=set()
        for v in [x for x in r.violations if not (x['label'] in seen or seen.add(x['label']))]: print('  VIOL',v['label'],'|',v['native_labels'],'|',v['replay'].replace('\n',';')[:1500],v['status'], '|', v['native_output'][-300:] if 'uncaught' in v['status'] or 'crash' in v['status'] else '')
