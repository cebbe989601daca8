module verif

go 1.23

require (
	github.com/mmcloughlin/ssarules v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/mmcloughlin/ssarules => /repo
