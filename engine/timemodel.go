package main

func addTime(m map[string]intrinsicFn) {
}
