module simctl

go 1.22
