module verif/sim

go 1.25.0
