module verif.local/instr

go 1.21
