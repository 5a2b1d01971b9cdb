module tslverif/s6

go 1.23.0

require (
	github.com/yaacov/tree-search-language/v6 v6.0.0
	github.com/Masterminds/squirrel v1.5.4
	gopkg.in/yaml.v3 v3.0.1
	tslverif/common v0.0.0
	tslverif/sched v0.0.0
)

replace github.com/yaacov/tree-search-language/v6 => /repo/v6

replace tslverif/common => ../common

replace tslverif/sched => ../sched
