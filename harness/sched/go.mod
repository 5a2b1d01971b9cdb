module tslverif/sched

go 1.20
