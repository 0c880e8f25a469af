//go:build !race

package par

func races() int { return 0 }
