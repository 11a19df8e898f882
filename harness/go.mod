module verif/harness

go 1.21

require (
	github.com/performancecopilot/speed/v4 v4.0.0
	golang.org/x/sys v0.0.0-20190412213103-97732733099d
)

require (
	github.com/HdrHistogram/hdrhistogram-go v1.1.0 // indirect
	github.com/edsrzf/mmap-go v1.0.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/performancecopilot/speed/v4 => /repo
