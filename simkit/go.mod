module verif.local/simkit

go 1.23
