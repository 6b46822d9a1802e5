import sys; sys.path.insert(0,'/verif')
from sa.prog import *
def ex(f,i,d=0):
    if not isinstance(i,int): return str(i)
    n=f.nodes[i]; k=n['k']
    g=lambda x: ex(f,x,d+1)
    if k=='var': return f.decls[n['d']]['name']+('^' if n.get('cap') else '')
    if k=='mem': return g(n['base'])+('->' if n['arrow'] else '.')+n['f'].split('::')[-1]
    if k=='this': return 'this'
    if k=='int': return str(n.get('sym') or n['v'])
    if k=='str': return repr(n.get('v'))
    if k=='load': return '*%s'%g(n['sub']) if False else g(n['sub'])
    if k in('call',):
        o=(g(n['obj'])+('->' if n.get('arrow') else '.')) if 'obj' in n else ''
        return '%s%s%s(%s)'%(o,n['n'],'!v' if n.get('virt') else '',', '.join(g(a) for a in n['args']))
    if k=='ctor': return 'ctor<%s%s>(%s)'%(n['t']['s'][:40],':copy' if n.get('copy') else ':move' if n.get('move') else '',', '.join(g(a) for a in n['args']))
    if k=='bin': return '(%s %s %s)'%(g(n['l']),n['op'],g(n['r']))
    if k=='assign': return '%s %s %s'%(g(n['l']),n['op'],g(n['r']))
    if k=='un': return '%s%s'%(n['op'],g(n['sub']))
    if k in('tobool','decay','icast'): return '%s[%s]'%(k,g(n['sub']))
    if k=='sub': return '%s[%s]'%(g(n['base']),g(n['idx']))
    if k=='cond': return '(%s?%s:%s)'%(g(n['c']),g(n['a']),g(n['b']))
    if k=='new': return 'new %s'%(g(n['init']) if isinstance(n.get('init'),int) else n['t']['s'])
    return '%s{%s}'%(k,','.join('%s'%v for kk,v in n.items() if kk not in('k','line','t')))
def dump(f):
    print('FN',f.q,f.ret['s'],[ (pp['name'],pp['t']['s']) for pp in f.params],'entry',f.entry,'exit',f.exit,'heads',f.heads)
    for b in sorted(f.blocks,reverse=True):
        bb=f.blocks[b]
        print(' B%d'%b, 'label %s'%bb['label'] if bb.get('label') else '', 'loopback' if bb.get('loopback') else '')
        for e in bb['e']:
            k=e['k']
            if k=='e':
                par=f.parents.get(e['n'],[])
                print('    e%d %s'%(e['n'],ex(f,e['n'])[:230]) if not any(x[0]=='n' for x in par) else '    . e%d %s'%(e['n'],f.nodes[e['n']]['k']))
            elif k=='decl': print('    decl',[(v['d'],f.decls[v['d']]['name'],v['t']['s'],ex(f,v.get('init'))[:160]) for v in e['vars']])
            elif k=='ret': print('    ret',ex(f,e.get('v')))
            else: print('   ',{kk:vv for kk,vv in e.items() if kk!='t'}, e.get('t',{}).get('s'))
        t=bb.get('term')
        print('    ->',bb['s'], (t['c'], ex(f,t['cond']) if isinstance(t.get('cond'),int) else t) if t else '')
if __name__=='__main__':
    p=Prog()
    for q in sys.argv[1:]:
        for f in p.fns.values():
            if f.q.endswith(q) or f.usr.endswith(q): dump(f)
