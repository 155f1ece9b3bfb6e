//go:build race

package gotables

import "runtime"

func vzRaces() int { return runtime.RaceErrors() }
