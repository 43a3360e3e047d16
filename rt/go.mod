module verif.local/rt

go 1.21
