module verif

go 1.18
