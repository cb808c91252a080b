package main

import "time"

func goDur(d int64) string { return time.Duration(d).String() }
