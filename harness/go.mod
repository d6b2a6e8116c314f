module verifharness

go 1.25

require (
	github.com/maruel/natural v1.1.1
	github.com/zijiren233/gencontainer v0.0.0
	golang.org/x/exp v0.0.0-20241004190924-225e2abe05e6
)

replace github.com/zijiren233/gencontainer => /repo
