import re
exec(open('/verif/tools/specs/httpbase.py').read())
src23=open('/verif/replay/C23/proxyproto_test.go').read()
def fn(name):
    i=src23.index(name); j=src23.find('\n}\n',i)+3
    return src23[i:j]
base23=pre.replace('import (','import (\n\t"bytes"\n\t"github.com/pires/go-proxyproto"',1)+keep
i=src23.index('type verifC23Addr'); j=src23.index('func TestVerifC23Write')
base23+=src23[i:j]+'\nvar _ = bytes.NewReader\n'
