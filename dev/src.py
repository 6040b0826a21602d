"""print functions of /repo without docstrings: dev/src.py file func..."""
import ast,sys
t=ast.parse(open('/repo/finmlkit/'+sys.argv[1]).read())
for x in ast.walk(t):
    if isinstance(x,(ast.FunctionDef,ast.ClassDef)) and (len(sys.argv)<3 or x.name in sys.argv[2:]):
        for y in ast.walk(x):
            if isinstance(y,(ast.FunctionDef,ast.ClassDef)) and ast.get_docstring(y) is not None: y.body=y.body[1:] or [ast.Pass()]
        if isinstance(x,ast.FunctionDef): x.returns=None; 
        print(ast.unparse(x)); print()
