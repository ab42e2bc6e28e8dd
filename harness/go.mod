module verifharness

go 1.24

require github.com/Wieku/gosu-pp v0.0.0

require golang.org/x/text v0.3.7

replace github.com/Wieku/gosu-pp => /repo
