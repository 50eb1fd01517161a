"""F(file, fn, new): edit that replaces the whole text of a function"""
import re
def text(f, name, nth=0):
    s=open('/repo/'+f).read()
    ms=list(re.finditer(r'(?m)^[ \t]*(?:pub(?:\([a-z]+\))? )?(?:async )?fn %s\b'%name, s))
    m=ms[nth]; i=s.index('{', s.index(')',m.end()) ) ; 
    # skip generics / where / return types: first '{' at paren depth 0 after the argument list
    j=m.end(); d=0
    while True:
        c=s[j]
        if c in '([': d+=1
        elif c in ')]': d-=1
        elif c=='{' and d==0: break
        j+=1
    d=0; k=j
    while True:
        if s[k]=='{': d+=1
        elif s[k]=='}':
            d-=1
            if d==0: break
        k+=1
    return s[m.start():k+1]
def F(f, name, new, nth=0): return (f, text(f,name,nth), new.strip('\n'))
