//go:build !race

package gotables

func vzRaces() int { return 0 }
