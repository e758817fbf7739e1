module verifharness

go 1.21

require github.com/wI2L/jettison v0.0.0

replace github.com/wI2L/jettison => /repo
