module sortyverif

go 1.24

require (
	github.com/jfcg/sixb v1.4.1 // indirect
	github.com/jfcg/sorty/v2 v2.0.0-00010101000000-000000000000
)

replace github.com/jfcg/sorty/v2 => /repo
