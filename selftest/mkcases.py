import sys
# compact format: name props file ||| old ||| new   (blocks separated by blank line '----')
kind=sys.argv[1]
out=open('/verif/selftest/%s.txt'%kind,'a')
txt=sys.stdin.read()
for blk in txt.strip().split('\n----\n'):
    lines=blk.split('\n'); head=lines[0]
    name_props,file=head.rsplit(' ',1)
    body='\n'.join(lines[1:])
    out.write('@@ %s\n'%name_props)
    for part in body.split('\n++\n'):
        o,n=part.split('\n=>\n') if '\n=>\n' in part else (part.rsplit('\n=>',1)[0],'')
        f=file
        if o.startswith('FILE '): f,o=o[5:].split('\n',1)
        out.write('== %s\n<<<<\n%s\n====\n%s\n>>>>\n'%(f,o,n))
