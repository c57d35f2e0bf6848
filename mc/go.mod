module verif/mc

go 1.24

require github.com/alxarch/njson v0.0.0

replace github.com/alxarch/njson => /repo
