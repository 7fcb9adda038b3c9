module verif/mc

go 1.25

require github.com/fwip/posix-utils v0.0.0

require (
	github.com/bbuck/go-lexer v0.0.0-20150530081543-8752f4c00663 // indirect
	github.com/shenwei356/util v0.0.0-20190523143900-f71ff373860c // indirect
)

replace github.com/fwip/posix-utils => /repo
