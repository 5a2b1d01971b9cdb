module tslverif/h5

go 1.16

require (
	github.com/yaacov/tree-search-language/v5 v5.0.0
	github.com/Masterminds/squirrel v1.4.0
	go.mongodb.org/mongo-driver v1.5.1
	gopkg.in/yaml.v2 v2.3.0
	tslverif/common v0.0.0
)

replace github.com/yaacov/tree-search-language/v5 => /repo/v5

replace tslverif/common => ../common
