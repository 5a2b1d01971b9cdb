module tslverif/instr

go 1.20
