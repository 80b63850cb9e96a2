package main

type fallthruT struct{ _ int }

// fallthru is returned by an intrinsic that declines a call: the real body runs.
var fallthru value = &fallthruT{}
