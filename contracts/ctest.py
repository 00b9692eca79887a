from contract import *
from terms import *
import terms as T

def graph(cx):
    A=cx.dim('A'); 
    def wing(a,w):
        M=cx.dim('M',a,w); N=cx.dim('N',a,w)
        return cx.obj('geometry.Wing', num_chordwise_panels=M, num_spanwise_panels=N,
           panels=cx.objarray((M,N)) if 0 else cx.objarr((M,N), lambda i,j: cx.obj('panel.Panel', qq=cx.real('area',a,w,i,j))))
    def plane(a):
        W=cx.dim('W',a)
        return cx.obj('geometry.Airplane', wings=cx.lst(W, lambda w: wing(a,w)))
    return cx.lst(A, plane)

@contract('T','t1')
def t1(cx):
    n=cx.dim('n'); x=cx.arr('x',(n,))
    cx.let(x=x)
    cx.exec("""
    tot = 0
    l = []
    y = np.zeros(len(x))
    for i, v in enumerate(x):
        tot += v
        l.append(v*2)
        y[i] = v*v
    """)
    v=T.only_atom(fresh('v','int',ZERO,n))
    cx.post('tot','tot',lambda: T.sum_(n,v,T.app('x',ap(v))))
    cx.post('l','l[i]',lambda i: 2*T.app('x',i),over=[('i',n)])
    cx.post('len','len(l)',lambda: n)
    cx.post('y','y[i]',lambda i: T.app('x',i)**2,over=[('i',n)])

@contract('T','t2')
def t2(cx):
    pl=graph(cx)
    cx.let(pl=pl)
    cx.exec("""
    n = 0
    for airplane in pl:
        for wing in airplane.wings:
            n += wing.num_chordwise_panels*wing.num_spanwise_panels
    y = np.zeros(n)
    pos = 0
    for airplane in pl:
        for wing in airplane.wings:
            for panel in np.ravel(wing.panels):
                y[pos] = panel.qq
                pos += 1
    pos = 0
    for airplane in pl:
        for wing in airplane.wings:
            panels = np.ravel(wing.panels)
            for panel in panels:
                panel.foo = y[pos]*2
                pos += 1
    """)
    cx.post('n','n',"sum(1 for a in pl for w in a.wings for p in np.ravel(w.panels))")
    cx.post('foo','pl[a].wings[w].panels[i,j].foo','2*pl[a].wings[w].panels[i,j].qq',over=[('a',T.app('A',sort='int')),('w',lambda a:T.app('W',a,sort='int')),('i',lambda a,w:T.app('M',a,w,sort='int')),('j',lambda a,w,i:T.app('N',a,w,sort='int'))])

@contract('T','g1')
def g1(cx):
    n=cx.dim('n'); x=cx.arr('x',(n,num(3)))
    cx.let(x=x)
    cx.exec("""
    s = np.empty((0, 3))
    for i in range(len(x)):
        s = np.vstack((s, 2*x[i]))
    """)
    cx.post('len','s.shape',lambda: (n,num(3)))
    cx.post('val','s[i]',lambda i: tuple(2*T.app('x',i,num(c)) for c in range(3)),over=[('i',n)])

@contract('T','g2')
def g2(cx):
    n=cx.dim('n'); x=cx.arr('x',(n,num(3)))
    o=cx.obj('problems.SteadyProblem',seed=cx.tab((ZERO,num(3)),lambda *i: ZERO))
    cx.let(x=x,o=o)
    cx.exec("""
    for i in range(len(x)):
        o.seed = np.vstack((o.seed, 2*x[i]))
    """)
    cx.post('len','o.seed.shape',lambda: (n,num(3)))
    cx.post('val','o.seed[i]',lambda i: tuple(2*T.app('x',i,num(c)) for c in range(3)),over=[('i',n)])

@contract('T','g3')
def g3(cx):
    n=cx.dim('n'); x=cx.arr('x',(n,num(3)))
    m=cx.dim('m')
    o=cx.obj('problems.SteadyProblem',seed=cx.tab((ZERO,num(3)),lambda *i: ZERO))
    cx.let(x=cx.arr('x',(n*m,num(3))),o=o,n=n,m=m)
    cx.exec("""
    for i in range(n*m):
        if i // m == n - 1:
            o.seed = np.vstack((o.seed, 2*x[i]))
    """)
    cx.post('len','o.seed.shape',lambda: (m,num(3)))
    cx.post('val','o.seed[i]',lambda i: tuple(2*T.app('x',i+(n-1)*m,num(c)) for c in range(3)),over=[('i',m)])
@contract('T','g4')
def g4(cx):
    n=cx.dim('n')
    m=cx.dim('m',fresh('e','int')) if 0 else None
    o=cx.obj('problems.SteadyProblem',seed=cx.tab((ZERO,num(3)),lambda *i: ZERO))
    def wing(a):
        M=cx.dim('M',a); N=cx.dim('N',a)
        return cx.obj('geometry.Wing', panels=cx.objarr((M,N), lambda i,j: cx.obj('panel.Panel', te=eq(i,M-1), pos=cx.vec('ps',a,i,j))))
    cx.let(o=o,ws=cx.lst(n,wing))
    cx.exec("""
    for wing in ws:
        for p in np.ravel(wing.panels):
            if p.te:
                o.seed = np.vstack((o.seed, p.pos))
    """)
    A=lambda nm,*a: T.app(nm,*a,sort='int')
    cx.post('len','o.seed.shape',lambda: (cx.I.lib.red(cx.st,n,lambda a: A('N',a)),num(3)))
    cx.post('val','o.seed[sum(w.panels.shape[1] for w in ws[:a]) + j]',lambda a,j: tuple(T.app('ps',a,A('M',a)-1,j,num(c)) for c in range(3)),over=[('a',n),('j',lambda a: A('N',a))])
