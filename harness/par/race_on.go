//go:build race

package par

import "runtime"

func races() int { return runtime.RaceErrors() }
