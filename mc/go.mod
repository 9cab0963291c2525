module verif/mc

go 1.21
