//go:build !race

package sched

func Races() int { return 0 }

const RaceBuild = false
