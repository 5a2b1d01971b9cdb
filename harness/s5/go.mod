module tslverif/s5

go 1.20

require (
	github.com/yaacov/tree-search-language/v5 v5.0.0
	github.com/Masterminds/squirrel v1.4.0
	go.mongodb.org/mongo-driver v1.5.1
	tslverif/common v0.0.0
	tslverif/sched v0.0.0
)

replace github.com/yaacov/tree-search-language/v5 => /repo/v5

replace tslverif/common => ../common

replace tslverif/sched => ../sched
