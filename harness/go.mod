module vharness

go 1.26.0

require (
	github.com/ikawaha/kagome-dict v1.1.0
	github.com/ikawaha/kagome-dict/ipa v1.2.0
	github.com/ikawaha/kagome-dict/uni v1.2.0
	github.com/ikawaha/kagome/v2 v2.0.0
)

require golang.org/x/net v0.61.0

replace github.com/ikawaha/kagome/v2 => /repo
