"""apply.py BATCH.txt DEST: copy /repo to DEST, replacing functions.
Batch format: lines '### file :: Class.func' followed by code of def(s) (helpers allowed before/after; placed at def's indentation, decorators kept on the def with the same name)."""
import ast,sys,subprocess,re,textwrap
b,dest=sys.argv[1:3]
only=set(sys.argv[3:])
subprocess.run(['rm','-rf',dest]); subprocess.run(['git','clone','-q','/repo',dest],check=True)
parts=re.split(r'^### (\S+) :: (\S+)\n',open(b).read(),flags=re.M)[1:]
for file,q,code in zip(parts[0::3],parts[1::3],parts[2::3]):
    if only and q not in only: continue
    p=f'{dest}/crowddynamics/{file}'; src=open(p).read(); lines=src.split('\n'); t=ast.parse(src)
    body=t.body; node=None
    for name in q.split('.'):
        node=next(n for n in body if getattr(n,'name',None)==name); body=node.body
    name=q.split('.')[-1]
    code=textwrap.dedent(code).strip('\n')
    nt=ast.parse(code)
    new=next(n for n in nt.body if getattr(n,'name',None)==name)
    ind=' '*node.col_offset
    cl=code.split('\n')
    pre=cl[:new.lineno-1]; mid=cl[new.lineno-1:new.end_lineno]; post=cl[new.end_lineno:]
    dec0=min([d.lineno for d in node.decorator_list]+[node.lineno])
    decs=lines[dec0-1:node.lineno-1]
    def I(ls): return [ind+l if l else l for l in ls]
    lines[dec0-1:node.end_lineno]=I(pre)+decs+I(mid)+I(post)
    s='\n'.join(lines); ast.parse(s); open(p,'w').write(s)
