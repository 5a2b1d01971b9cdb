module tslverif/common

go 1.20
