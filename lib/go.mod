module verif/lib

go 1.18

require pgregory.net/rapid v1.3.0
