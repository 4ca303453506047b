module vh

go 1.21

require (
	github.com/gagliardetto/binary v0.0.0
	go.uber.org/zap v1.21.0
)

replace github.com/gagliardetto/binary => /repo
