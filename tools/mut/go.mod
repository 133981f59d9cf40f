module mut

go 1.17
