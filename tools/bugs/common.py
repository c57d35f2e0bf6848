import sys; sys.path.insert(0,'/verif/tools')
from mkbug import bug
def prog(body, imports=('github.com/alxarch/njson',)):
    im=''.join('\t"%s"\n'%i for i in imports)
    return '''
package main

import (
	"fmt"
	"os"
%s)

func fail(a ...interface{}) { fmt.Println(a...); os.Exit(1) }

func main() {
%s
}
'''%(im, body)
