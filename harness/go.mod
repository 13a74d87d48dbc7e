module github.com/nanobus/iota/go/zverif

go 1.26
