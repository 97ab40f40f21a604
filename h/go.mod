module github.com/mlnoga/nightlight/verif

go 1.22

require (
	github.com/klauspost/cpuid v1.3.1
	github.com/mlnoga/nightlight v0.0.0
	golang.org/x/image v0.13.0
)

replace github.com/mlnoga/nightlight => /repo

require (
	github.com/lucasb-eyer/go-colorful v1.2.0 // indirect
	github.com/pbnjay/memory v0.0.0-20210728143218-7b4eea64cf58 // indirect
	github.com/valyala/fastrand v1.1.0 // indirect
	golang.org/x/exp v0.0.0-20231006140011-7918f672742d // indirect
	golang.org/x/tools v0.14.0 // indirect
	gonum.org/v1/gonum v0.14.0 // indirect
)
