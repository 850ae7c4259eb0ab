module verif/sim

go 1.21

require (
	github.com/gogo/protobuf v1.3.1
	github.com/roy2220/fsm v0.6.1
	github.com/roy2220/plainkv v0.0.0
)

replace (
	github.com/roy2220/fsm => ./fsm
	github.com/roy2220/plainkv => /repo
)
