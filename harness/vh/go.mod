module vharness

go 1.13

require (
	github.com/roy2220/fsm v0.6.1
	github.com/roy2220/plainkv v0.0.0
)
